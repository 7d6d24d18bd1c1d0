//! Generator of well-formed replays whose content is known: it picks values, writes them in the
//! replay format and keeps what the parser has to return.
use crate::bitio::BitW;
use crate::model::{self, resolve, tables, CacheIn, ObjModel, Spawn, Tag};
use crate::refdec::{crc, quat_old_val, quat_val, utf16, v3f, w1252, V};
use crate::rng::Rng;
use boxcars::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct ByteW(pub Vec<u8>);
impl ByteW {
    pub fn i32(&mut self, v: i32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits())
    }
    pub fn raw(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
    /// length-prefixed UTF-8 with a terminator
    pub fn str(&mut self, s: &str) {
        self.i32(s.len() as i32 + 1);
        self.raw(s.as_bytes());
        self.0.push(0);
    }
}

// ---------------------------------------------------------------- text

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TextKind {
    Empty,
    Ascii,
    W1252,
    Utf16,
    Utf16Raw,
}
pub fn text_kind(r: &mut Rng) -> TextKind {
    match r.below(12) {
        0 => TextKind::Empty,
        1..=4 => TextKind::Ascii,
        5..=7 => TextKind::W1252,
        8..=10 => TextKind::Utf16,
        _ => TextKind::Utf16Raw,
    }
}
const NAMES: [&str; 10] = ["Team0Score", "PlayerName", "comagoosie", "a", "None", "TAGame.Replay_Soccar_TA", "\u{3053}\u{3093}", "Ü", "Ω≈ç", "OnlinePlatform"];

pub fn rand_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(6) {
            0 => r.below(0x80) as u32,
            1 => 0x80 + r.below(0x780) as u32,
            2 => r.below(0x10000) as u32,
            3 => 0x10000 + r.below(0x100000) as u32,
            4 => *r.pick(&[0x2623u32, 0xFEFF, 0xFFFE, 0xFFFF, 0x10FFFF, 0x10000, 0xD7FF, 0xE000, 0x1F600]),
            _ => 0x20 + r.below(0x5f) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

/// returns (length field, bytes that follow it, what must be decoded)
pub fn text_parts(r: &mut Rng, kind: TextKind, max_units: usize) -> (i32, Vec<u8>, String) {
    let n = if r.chance(1, 40) { r.usize(max_units) } else { r.usize(max_units.min(24)) };
    match kind {
        TextKind::Empty => match r.below(3) {
            0 => (0, vec![], String::new()),
            1 => (1, vec![0], String::new()),
            _ => (-1, vec![0, 0], String::new()),
        },
        TextKind::Ascii => {
            let s: String = if r.chance(1, 3) {
                let x = *r.pick(&NAMES[..6]);
                if x.len() < max_units { x.to_string() } else { "z".into() }
            } else {
                (0..n).map(|_| (0x20 + r.below(0x5f) as u8) as char).collect()
            };
            let mut b = s.clone().into_bytes();
            b.push(0);
            (b.len() as i32, b, s)
        }
        TextKind::W1252 => {
            let mut b: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { 0x80 | r.u8() } else { r.u8() }).collect();
            let s = w1252(&b);
            b.push(if r.chance(9, 10) { 0 } else { r.u8() });
            (b.len() as i32, b, s)
        }
        TextKind::Utf16 => {
            let mut s = String::new();
            let mut u: Vec<u16> = vec![];
            while u.len() < n {
                let c = rand_char(r);
                if u.len() + c.len_utf16() > n {
                    break;
                }
                s.push(c);
                let mut t = [0; 2];
                u.extend_from_slice(c.encode_utf16(&mut t));
            }
            u.push(0);
            (-(u.len() as i32), u.iter().flat_map(|x| x.to_le_bytes()).collect(), s)
        }
        TextKind::Utf16Raw => {
            let u: Vec<u16> = (0..=n)
                .map(|_| match r.below(4) {
                    0 => 0xD800 + r.below(0x400) as u16,
                    1 => 0xDC00 + r.below(0x400) as u16,
                    2 => r.u64() as u16,
                    _ => 0x20 + r.below(0x60) as u16,
                })
                .collect();
            let b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
            let s = utf16(&b[..b.len() - 2]);
            (-(u.len() as i32), b, s)
        }
    }
}
pub fn text(r: &mut Rng, w: &mut ByteW) -> String {
    let k = text_kind(r);
    let (n, b, s) = text_parts(r, k, 300);
    w.i32(n);
    w.raw(&b);
    s
}
pub fn plain_text(w: &mut ByteW, s: &str) {
    w.str(s)
}
/// length-prefixed UTF-8
pub fn ustr(r: &mut Rng, w: &mut ByteW) -> String {
    let mut s = if r.chance(1, 12) {
        // nearly the name that ends a list
        r.pick(&["none", "NONE", "nONE", " None", "None ", "None\0", "Non", "None1", "NoneNone", "\u{feff}None", "\u{feff}a", "\u{feff}"]).to_string()
    } else if r.chance(1, 2) {
        r.pick(&NAMES).to_string()
    } else {
        let n = r.usize(20);
        (0..n).map(|_| rand_char(r)).collect()
    };
    if s == "None" {
        s.push('x');
    }
    w.str(&s);
    s
}

// ---------------------------------------------------------------- header

pub fn key(r: &mut Rng, w: &mut ByteW) -> String {
    ustr(r, w)
}

/// one property (value part included) written; None when it must not show up in the result
pub fn prop(r: &mut Rng, w: &mut ByteW, quirks: bool, depth: usize, fuel: &mut usize) -> Option<(String, HeaderProp)> {
    let k = key(r, w);
    let junk = |r: &mut Rng, w: &mut ByteW| {
        w.u32(r.u32e());
        w.u32(r.u32e());
    };
    let kinds = if depth == 0 || *fuel == 0 { 8 } else { 11 };
    *fuel = fuel.saturating_sub(1);
    let v = match r.below(kinds) {
        0 => {
            w.str("BoolProperty");
            junk(r, w);
            let b = match r.below(8) {
                0..=2 => 1,
                3 | 4 => 0,
                5 => *r.pick(&[2, 3, 0x80, 0x81, 0xff, 0x11, 0xfe]),
                _ => r.u8(),
            };
            w.raw(&[b]);
            if quirks {
                w.raw(&r.bytes(3));
            }
            HeaderProp::Bool(b == 1)
        }
        1 => {
            w.str("ByteProperty");
            junk(r, w);
            if quirks {
                HeaderProp::Byte { kind: text(r, w), value: None }
            } else if r.chance(1, 3) {
                w.str("None");
                let x = r.u8();
                w.raw(&[x]);
                return None;
            } else {
                let kind = ustr(r, w);
                let value = Some(ustr(r, w));
                HeaderProp::Byte { kind, value }
            }
        }
        2 => {
            w.str("FloatProperty");
            junk(r, w);
            let f = r.f32_any();
            w.f32(f);
            HeaderProp::Float(f)
        }
        3 | 4 => {
            w.str("IntProperty");
            junk(r, w);
            let f = r.i32e();
            w.i32(f);
            HeaderProp::Int(f)
        }
        5 => {
            w.str("QWordProperty");
            junk(r, w);
            let f = r.u64e();
            w.raw(&f.to_le_bytes());
            HeaderProp::QWord(f)
        }
        6 => {
            w.str("NameProperty");
            junk(r, w);
            HeaderProp::Name(text(r, w))
        }
        7 => {
            w.str("StrProperty");
            junk(r, w);
            HeaderProp::Str(text(r, w))
        }
        8 | 9 => {
            w.str("ArrayProperty");
            junk(r, w);
            let n = r.usize(4);
            w.i32(n as i32);
            HeaderProp::Array((0..n).map(|_| dict(r, w, quirks, depth - 1, fuel)).collect())
        }
        _ => {
            w.str("StructProperty");
            junk(r, w);
            let name = ustr(r, w);
            HeaderProp::Struct { name, fields: dict(r, w, quirks, depth - 1, fuel) }
        }
    };
    Some((k, v))
}
pub fn dict(r: &mut Rng, w: &mut ByteW, quirks: bool, depth: usize, fuel: &mut usize) -> Vec<(String, HeaderProp)> {
    let n = r.usize(5).min(*fuel);
    let v = (0..n).filter_map(|_| prop(r, w, quirks, depth, fuel)).collect();
    w.str("None");
    v
}

pub const VERSIONS: [(i32, i32, i32); 45] = [
    (0, 0, 0), (0, 1, 0), (1, 0, 0), (-1, -1, 0), (865, 18, 0), (865, 20, 5), (866, 17, 0), (866, 18, 0), (866, 18, 7),
    (867, 20, 3), (868, 9, 0), (868, 11, 0), (868, 12, 0), (868, 13, 0), (868, 14, 0), (868, 15, 0), (868, 17, 0),
    (868, 18, -1), (868, 18, 0), (868, 18, 1), (868, 18, 7), (868, 19, 0), (868, 19, 2), (868, 20, -1), (868, 20, 0),
    (868, 20, 1), (868, 20, 2), (868, 20, 6), (868, 20, 7), (868, 20, 9), (868, 20, 10), (868, 22, 7), (868, 22, 10),
    (868, 23, 7), (868, 23, 8), (868, 23, 9), (868, 24, 9), (868, 24, 10), (868, 28, 10), (868, 32, 10), (868, 32, 11),
    (869, 0, 0), (869, 18, 3), (900, 40, 100), (i32::MAX, i32::MAX, i32::MAX),
];
/// one of the above, or anything around the thresholds
pub fn version(r: &mut Rng) -> (i32, i32, i32) {
    match r.below(20) {
        0..=11 => *r.pick(&VERSIONS),
        12..=17 => (*r.pick(&[866, 867, 868, 868, 868, 868, 868, 869]), r.range(8, 34) as i32, r.range(-1, 12) as i32),
        18 => (868, *r.pick(&[12, 14, 18, 20, 23, 24]) + r.range(-1, 1) as i32, r.range(-2, 14) as i32),
        _ => (r.i32e(), r.i32e(), r.i32e()),
    }
}
/// a known text with one to three edits, anywhere, by characters of every width
pub fn mangle(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.usize(3) {
        let x = match r.below(5) {
            0 => *r.pick(&['é', 'ÿ', '€', 'Ž', '\u{fffd}', '\u{1f600}']),
            1 => *r.pick(&['.', ':', '_', ' ', '\0', '-', '/']),
            2 => (b'0' + r.below(10) as u8) as char,
            3 => (0x20 + r.below(0x5f) as u8) as char,
            _ => rand_char(r),
        };
        let n = c.len();
        match r.below(7) {
            _ if n == 0 => c.push(x),
            0 | 1 => c[r.usize(n)] = x,
            2 => c.insert(r.usize(n + 1), x),
            3 => c.truncate(r.usize(n + 1)),
            4 => drop(c.drain(..r.usize(n + 1))),
            5 => {
                // a long number
                let k = 1 + r.usize(25);
                let at = if r.chance(1, 2) { n } else { r.usize(n + 1) };
                let d = (0..k).map(|_| (b'0' + r.below(10) as u8) as char).collect::<Vec<_>>();
                c.splice(at..at, d);
            }
            _ => *c.last_mut().unwrap() = x,
        }
    }
    c.into_iter().collect()
}
/// a part of a known text, from one separator to another
pub fn part<'a>(r: &mut Rng, s: &'a str) -> &'a str {
    let mut at: Vec<usize> = vec![0, s.len()];
    for (i, c) in s.char_indices() {
        if !c.is_alphanumeric() {
            at.push(i);
            at.push(i + c.len_utf8());
        }
    }
    let (a, b) = (*r.pick(&at), *r.pick(&at));
    &s[a.min(b)..a.max(b)]
}
/// the value of BuildVersion, if any; the second: at least 221120.42953.406184, as text
pub fn build_version(r: &mut Rng) -> Option<String> {
    const B: &str = "221120.42953.406184";
    let s = match r.below(11) {
        0..=2 => return None,
        10 => mangle(r, B),
        3 | 4 => B.to_string(),
        5 => r.pick(&["221120.42953.406183", "230101.1.1", "161101.36066.144128", "221120.42953.40618", "9", "", "3", "22", "2", "221120", "221120.42953.4061840", "1000000.0.0", "221120.5.1", "221120,42953"]).to_string(),
        6 | 7 => {
            // one character off
            let mut b = B.as_bytes().to_vec();
            let k = r.usize(b.len());
            b[k] = match r.below(3) {
                0 => b[k] + 1,
                1 => b[k] - 1,
                _ => 0x20 + r.below(0x5f) as u8,
            };
            String::from_utf8(b).unwrap()
        }
        8 => {
            let n = r.usize(B.len() + 1);
            let mut s = B[..n].to_string();
            if r.chance(1, 2) {
                s.push((0x20 + r.below(0x5f) as u8) as char)
            }
            s
        }
        _ => format!("{:06}.{}.{}", r.range(150_000, 260_000), r.below(60_000), r.below(500_000)),
    };
    Some(s)
}
pub fn max_channels(r: &mut Rng) -> Option<i32> {
    match r.below(10) {
        0..=1 => None,
        2..=6 => Some(*r.pick(&[1023, 2047, 1024, 200, 201, 256, 3, 2, 1, 100_000])),
        7 => Some((1i32 << r.below(31)).wrapping_add(r.range(-1, 1) as i32).max(1)),
        8 => Some(r.range(1, 5000) as i32),
        _ if r.chance(1, 3) => Some(*r.pick(&[0, 0, -1, -2, i32::MAX, i32::MIN, i32::MIN + 1, -1023, -65536])),
        _ => Some(r.range(1, 1 << 17) as i32),
    }
}
pub fn has_net(major: i32, minor: i32) -> bool {
    major > 865 && minor > 17
}

// ---------------------------------------------------------------- body

pub fn sample_len(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=2 => 0,
        3..=8 => r.usize(5),
        _ => r.usize(40),
    }
}

#[derive(Clone)]
pub struct NetOpts {
    pub frames: usize,
    pub ops: usize,
    /// restrict attributes to these kinds (empty: all)
    pub tags: Vec<Tag>,
    pub finite: bool,
    pub version: Option<(i32, i32, i32)>,
    pub max_channels: Option<Option<i32>>,
    pub classes: usize,
    pub rich_header: bool,
    pub rich_body: bool,
}
impl Default for NetOpts {
    fn default() -> Self {
        NetOpts { frames: 6, ops: 8, tags: vec![], finite: false, version: None, max_channels: None, classes: 6, rich_header: false, rich_body: false }
    }
}

pub struct Synth {
    pub bytes: Vec<u8>,
    pub expect: Replay,
    pub header_at: (usize, usize),
    pub content_at: (usize, usize),
    pub network_at: (usize, usize),
    pub version: (i32, i32, i32),
    /// bit offset after each complete item in the network stream, with what it was
    pub marks: Vec<(usize, Mark)>,
    pub max_channels: u32,
    /// kinds used, for the coverage counters
    pub tags: BTreeMap<Tag, usize>,
    pub widths: BTreeSet<u32>,
    pub spawns: [usize; 3],
    pub end_marker: bool,
    pub net_bits: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mark {
    FrameStart,
    Spawn,
    Delete,
    Attr(Tag),
    FrameEnd,
}

pub fn seal(header: &[u8], content: &[u8]) -> (Vec<u8>, (usize, usize), (usize, usize)) {
    let mut w = ByteW::default();
    w.i32(header.len() as i32);
    w.u32(crc(header));
    let h = (w.0.len(), w.0.len() + header.len());
    w.raw(header);
    w.i32(content.len() as i32);
    w.u32(crc(content));
    let c = (w.0.len(), w.0.len() + content.len());
    w.raw(content);
    (w.0, h, c)
}

pub struct AttrCfg {
    pub v: V,
    pub is_223: bool,
    pub prod: [i32; 5],
    pub finite: bool,
    pub nobj: i32,
}

pub fn pick_tag_name(r: &mut Rng, tags: &[Tag]) -> (&'static str, Tag) {
    let t = if tags.is_empty() { *r.pick(&model::ALL_TAGS) } else { *r.pick(tags) };
    (*r.pick(&tables().by_tag[&t]), t)
}

/// The object world of a synthetic replay.
pub struct World {
    pub objects: Vec<String>,
    pub caches: Vec<ClassNetCache>,
    pub model: ObjModel,
}

pub fn level_name(r: &mut Rng) -> String {
    let k = *r.pick(&model::LEVEL_KINDS);
    let stadium = *r.pick(&["", "stadium_p.", "Park_Night_P.", "stadium_foggy_p.", "x."]);
    let suffix = match r.below(4) {
        0 => String::new(),
        1 => format!("_{}", r.below(200)),
        2 => format!("_{}", r.below(10)),
        _ => format!("{}", r.below(10)),
    };
    format!("{stadium}TheWorld:PersistentLevel.{k}{suffix}")
}

pub fn world(r: &mut Rng, o: &NetOpts) -> World {
    let t = tables();
    let mut objs: Vec<String> = vec![];
    let mut classes: Vec<String> = vec![];
    for _ in 0..o.classes {
        let c = match r.below(8) {
            0 => level_name(r),
            1 => r.pick(&t.spawn).0.to_string(),
            2 => r.pick(&["TAGame.Ball_TA", "TAGame.Car_TA", "TAGame.PRI_TA", "Engine.Actor", "TAGame.RBActor_TA", "TAGame.CarComponent_Boost_TA"]).to_string(),
            _ => r.pick(&t.class_list).0.to_string(),
        };
        // most of the time the ancestors are in the object list too, as in real replays
        let mut cur = c.clone();
        classes.push(c.clone());
        objs.push(c);
        while let Some(p) = model::parent_of(&cur) {
            if r.chance(7, 8) {
                objs.push(p.to_string());
                if r.chance(1, 2) {
                    classes.push(p.to_string());
                }
            }
            cur = p.to_string();
        }
    }
    let mut attr_names: Vec<(&'static str, Tag)> = vec![];
    for _ in 0..(4 + r.usize(24)) {
        attr_names.push(pick_tag_name(r, &o.tags));
    }
    for (n, _) in &attr_names {
        objs.push(n.to_string());
    }
    for p in ["UserColor", "Painted", "TitleID", "SpecialEdition", "TeamEdition"] {
        if r.chance(3, 4) {
            objs.push(format!("TAGame.ProductAttribute_{p}_TA"));
        }
    }
    for _ in 0..r.usize(4) {
        objs.push(r.pick(&["Foo.Bar", "Archetypes.Unknown", "", "x.TheWorld:PersistentLevel.Nope_TA_1", "TAGame.Nope_TA:Attr"]).to_string());
    }
    if r.chance(1, 40) {
        // real replays have hundreds of objects; up to the limit of a list
        let n = match r.below(12) {
            0 => 24_000,
            1 => *r.pick(&[4_096, 8_192, 16_384, 20_000]),
            _ => r.usize(700),
        };
        for k in 0..n {
            objs.push(format!("Archetypes.Filler_{k}"));
        }
    }
    // unique by name, shuffled, then a few duplicates
    let set: BTreeSet<String> = objs.into_iter().collect();
    let mut objects: Vec<String> = set.into_iter().collect();
    for i in (1..objects.len()).rev() {
        objects.swap(i, r.usize(i + 1))
    }
    for _ in 0..r.usize(3) {
        let d = objects[r.usize(objects.len())].clone();
        objects.push(d);
    }
    let idx = |n: &str, objects: &[String]| objects.iter().position(|x| x == n).unwrap() as i32;

    let mut caches: Vec<ClassNetCache> = vec![];
    let holders: BTreeSet<String> = classes.iter().cloned().collect();
    let spread: i32 = *r.pick(&[1, 1, 1, 2, 5, 40, 1000]);
    let base: i32 = *r.pick(&[0, 0, 1, 30, 55, 62, 126, 250]);
    let mut next = base;
    for h in &holders {
        if r.chance(1, 8) {
            continue;
        }
        let mut properties = vec![];
        for _ in 0..r.usize(7) {
            let (n, _) = *r.pick(&attr_names);
            let sid = if r.chance(1, 6) { r.range(0, (next + 3) as i64) as i32 } else { next };
            next += 1 + r.below(spread as u64) as i32;
            // also a name boxcars does not implement, which must only matter when it is used
            let obj = if r.chance(1, 30) { r.usize(objects.len()) as i32 } else { idx(n, &objects) };
            properties.push(CacheProp { object_ind: obj, stream_id: sid });
        }
        caches.push(ClassNetCache { object_ind: idx(h, &objects), parent_id: r.i32e(), cache_id: r.i32e(), properties });
    }
    if r.chance(1, 6) && !caches.is_empty() {
        // a second entry for an object adds to the first
        let mut c = caches[r.usize(caches.len())].clone();
        c.properties = vec![CacheProp { object_ind: idx(attr_names[0].0, &objects), stream_id: next }];
        caches.push(c);
    }
    for i in (1..caches.len()).rev() {
        caches.swap(i, r.usize(i + 1))
    }
    let cin: Vec<CacheIn> = caches
        .iter()
        .map(|c| CacheIn { object_ind: c.object_ind, props: c.properties.iter().map(|p| (p.object_ind, p.stream_id)).collect() })
        .collect();
    let model = resolve(&objects, &cin).unwrap();
    World { objects, caches, model }
}

pub struct NetOut {
    pub data: Vec<u8>,
    pub frames: Vec<Frame>,
    pub num_frames: i32,
    pub marks: Vec<(usize, Mark)>,
    pub tags: BTreeMap<Tag, usize>,
    pub widths: BTreeSet<u32>,
    pub spawns: [usize; 3],
    pub end_marker: bool,
    pub bits: usize,
}

pub fn frame_time(r: &mut Rng, finite: bool) -> f32 {
    loop {
        let f = match r.below(7) {
            6 => r.range(0, 200) as f32 / *r.pick(&[1000.0f32, 100.0, 1e6]),
            0 => *r.pick(&[0.0f32, 1e-10, 2e-10, 1.0, f32::MAX, -0.0]),
            1 if !finite => *r.pick(&[f32::INFINITY, f32::NAN]),
            _ => r.range(1, 600_000) as f32 / 1000.0,
        };
        if !(f < 0.0 || (f > 0.0 && f < 1e-10)) {
            return f;
        }
    }
}

pub fn actor_id(r: &mut Rng, mc: u32) -> u32 {
    if mc <= 1 {
        return 0;
    }
    let m = mc as u64;
    let c = match r.below(6) {
        0 => *r.pick(&[0u64, 1, 63, 64, 127, 128, 198, 199, 200, 201, 255, 256, 511, 512, 1022, 1023]),
        1 => m - 1,
        2 => m - 1 - r.below(m.min(4)),
        3 => r.below(m),
        4 => r.below(m.min(260)),
        _ => r.below(m.min(20)),
    };
    c.min(m - 1) as u32
}

pub fn network(r: &mut Rng, o: &NetOpts, w: &World, a: &AttrCfg, named: bool, mc: u32) -> NetOut {
    let mut b = BitW::default();
    let mut frames = vec![];
    let mut marks = vec![];
    let mut tags = BTreeMap::new();
    let mut widths = BTreeSet::new();
    let mut spawns = [0; 3];
    let cb = model::width(mc as u64).max(1) - 1;
    let mut live: BTreeMap<u32, i32> = BTreeMap::new();
    let spawnable: Vec<i32> = (0..w.objects.len() as i32).filter(|i| w.model.info[*i as usize].is_some()).collect();
    let useful: Vec<i32> = spawnable
        .iter()
        .copied()
        .filter(|i| w.model.info[*i as usize].as_ref().unwrap().attrs.iter().any(|(s, (t, _))| *s >= 0 && *t != Tag::NotImplemented))
        .collect();
    for _ in 0..o.frames {
        let (mut time, delta) = (frame_time(r, o.finite), frame_time(r, o.finite));
        if time == 0.0 && delta == 0.0 {
            time = 1.5;
        }
        b.f32(time);
        b.f32(delta);
        marks.push((b.n, Mark::FrameStart));
        let mut f = Frame { time, delta, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
        for _ in 0..r.usize(o.ops + 1) {
            let choice = r.below(10);
            if (choice < 3 || live.is_empty()) && !spawnable.is_empty() {
                let pool = if !useful.is_empty() && r.chance(4, 5) { &useful } else { &spawnable };
                let obj = *r.pick(pool);
                let id = actor_id(r, mc);
                b.bit(true);
                b.bounded(id as u64, cb, mc as u64);
                b.bit(true);
                b.bit(true);
                let name_id = if named {
                    let n = r.i32e();
                    b.i32(n);
                    Some(n)
                } else {
                    None
                };
                b.bit(r.chance(1, 2));
                b.i32(obj);
                let sp = w.model.spawn[obj as usize];
                spawns[sp as usize] += 1;
                let location = if sp == Spawn::None { None } else { Some(enc_vec(r, &mut b, a.v.2)) };
                let rotation = if sp == Spawn::LocRot { Some(enc_rot(r, &mut b)) } else { None };
                f.new_actors.push(NewActor {
                    actor_id: ActorId(id as i32),
                    name_id,
                    object_id: ObjectId(obj),
                    initial_trajectory: Trajectory { location, rotation },
                });
                live.insert(id, obj);
                marks.push((b.n, Mark::Spawn));
            } else if choice < 4 {
                // delete: usually something alive, sometimes an id never seen
                let id = if !live.is_empty() && r.chance(4, 5) {
                    *r.pick(&live.keys().copied().collect::<Vec<_>>())
                } else {
                    actor_id(r, mc)
                };
                b.bit(true);
                b.bounded(id as u64, cb, mc as u64);
                b.bit(false);
                f.deleted_actors.push(ActorId(id as i32));
                live.remove(&id);
                marks.push((b.n, Mark::Delete));
            } else if !live.is_empty() {
                let id = *r.pick(&live.keys().copied().collect::<Vec<_>>());
                let obj = live[&id];
                let info = w.model.info[obj as usize].as_ref().unwrap();
                b.bit(true);
                b.bounded(id as u64, cb, mc as u64);
                b.bit(true);
                b.bit(false);
                widths.insert(info.id_bits());
                let usable: Vec<(i32, Tag, i32)> = info
                    .attrs
                    .iter()
                    .filter(|(s, (t, _))| **s >= 0 && *t != Tag::NotImplemented)
                    .map(|(s, (t, ob))| (*s, *t, *ob))
                    .collect();
                if !usable.is_empty() {
                    for _ in 0..r.usize(4) {
                        let (s, t, ob) = *r.pick(&usable);
                        b.bit(true);
                        b.bounded(s as u64, info.id_bits(), info.max as u64);
                        let attribute = enc_attr(r, &mut b, t, a);
                        *tags.entry(t).or_insert(0) += 1;
                        f.updated_actors.push(UpdatedAttribute {
                            actor_id: ActorId(id as i32),
                            stream_id: StreamId(s),
                            object_id: ObjectId(ob),
                            attribute,
                        });
                        marks.push((b.n, Mark::Attr(t)));
                    }
                }
                b.bit(false);
            }
        }
        b.bit(false);
        marks.push((b.n, Mark::FrameEnd));
        frames.push(f);
    }
    let mut num = frames.len() as i32;
    let end_marker = r.chance(1, 3);
    let bits = b.n;
    if end_marker {
        // more frames announced than present: the all-zero frame ends the stream
        b.f32(0.0);
        b.f32(if r.chance(1, 2) { 0.0 } else { -0.0 });
        num += 1 + r.below(3) as i32;
        if r.chance(1, 2) {
            b.u32(r.u32());
        }
    } else if r.chance(1, 2) {
        // trailer
        b.u32(r.u32());
    }
    let mut data = b.b;
    while (data.len() as i32) < num {
        data.push(0);
    }
    NetOut { data, frames, num_frames: num, marks, tags, widths, spawns, end_marker, bits }
}

pub fn synth(r: &mut Rng, o: &NetOpts) -> Synth {
    let w = world(r, o);
    synth_with(r, o, &w)
}

pub fn synth_with(r: &mut Rng, o: &NetOpts, w: &World) -> Synth {
    let ver = o.version.unwrap_or_else(|| version(r));
    let (major, minor) = (ver.0, ver.1);
    let net = if has_net(major, minor) { Some(ver.2) } else { None };
    let quirks = major == 0 && minor == 0;
    let v = V(major, minor, net.unwrap_or(0));
    let match_type = r.pick(&[None, Some("Lan"), Some("Lan"), Some("Online"), Some("lan"), Some("Lan "), Some("LAN"), Some(""), Some("Private")]).map(String::from);
    let match_type = if r.chance(1, 16) { Some(mangle(r, "Lan")) } else { match_type };
    let build = build_version(r);
    let is_lan = match_type.as_deref() == Some("Lan");
    let is_223 = build.as_deref().map_or(false, |b| b >= "221120.42953.406184");
    let mcp = o.max_channels.unwrap_or_else(|| max_channels(r));
    let mc = mcp.map_or(1023, |x| x as u32);
    let id = |n: &str| w.model.first.get(n).map(|x| *x as i32).unwrap_or(0);
    let a = AttrCfg {
        v: v.clone(),
        is_223,
        prod: [
            id("TAGame.ProductAttribute_UserColor_TA"),
            id("TAGame.ProductAttribute_Painted_TA"),
            id("TAGame.ProductAttribute_TitleID_TA"),
            id("TAGame.ProductAttribute_SpecialEdition_TA"),
            id("TAGame.ProductAttribute_TeamEdition_TA"),
        ],
        finite: o.finite,
        nobj: w.objects.len() as i32,
    };
    let named = v >= V(868, 20, 0) || (v >= V(868, 14, 0) && !is_lan);
    let n = network(r, o, w, &a, named, mc);

    // header
    let mut h = ByteW::default();
    h.i32(major);
    h.i32(minor);
    if let Some(x) = net {
        h.i32(x);
    }
    let game_type = if o.rich_header { text(r, &mut h) } else { h.str("TAGame.Replay_Soccar_TA"); "TAGame.Replay_Soccar_TA".to_string() };
    let mut props: Vec<(String, HeaderProp)> = vec![];
    // the properties that steer the decoding, in random order and among others
    let mut steer: Vec<(&str, HeaderProp)> = vec![("NumFrames", HeaderProp::Int(n.num_frames))];
    if let Some(x) = mcp {
        steer.push(("MaxChannels", HeaderProp::Int(x)));
    }
    if let Some(x) = &match_type {
        steer.push(("MatchType", if r.chance(1, 2) { HeaderProp::Name(x.clone()) } else { HeaderProp::Str(x.clone()) }));
    }
    if let Some(x) = &build {
        steer.push(("BuildVersion", if r.chance(1, 3) { HeaderProp::Name(x.clone()) } else { HeaderProp::Str(x.clone()) }));
    }
    for i in (1..steer.len()).rev() {
        steer.swap(i, r.usize(i + 1))
    }
    for (k, p) in steer {
        if o.rich_header {
            let mut fuel = 12;
            for _ in 0..r.usize(3) {
                let depth = 3;
                if let Some(p) = prop(r, &mut h, quirks, depth, &mut fuel) {
                    props.push(p)
                }
            }
        }
        h.str(k);
        match &p {
            HeaderProp::Int(x) => {
                h.str("IntProperty");
                h.raw(&[4, 0, 0, 0, 0, 0, 0, 0]);
                h.i32(*x);
            }
            HeaderProp::Str(x) => {
                h.str("StrProperty");
                h.raw(&[4, 0, 0, 0, 0, 0, 0, 0]);
                crate::mini::put_text(&mut h, x);
            }
            HeaderProp::Name(x) => {
                h.str("NameProperty");
                h.raw(&[4, 0, 0, 0, 0, 0, 0, 0]);
                crate::mini::put_text(&mut h, x);
            }
            _ => unreachable!(),
        }
        props.push((k.to_string(), p));
    }
    if o.rich_header {
        let mut fuel = 20;
        for _ in 0..r.usize(4) {
            if let Some(p) = prop(r, &mut h, quirks, 5, &mut fuel) {
                props.push(p)
            }
        }
        if r.chance(1, 4) {
            // a repeated key: both stay, the first one counts
            h.str("NumFrames");
            h.str("IntProperty");
            h.raw(&[4, 0, 0, 0, 0, 0, 0, 0]);
            h.i32(n.num_frames + 7);
            props.push(("NumFrames".into(), HeaderProp::Int(n.num_frames + 7)));
        }
    }
    h.str("None");

    // body
    let mut c = ByteW::default();
    let len = |r: &mut Rng| if o.rich_body { sample_len(r) } else { 0 };
    let texts = |r: &mut Rng, c: &mut ByteW, n: usize| -> Vec<String> {
        c.i32(n as i32);
        (0..n).map(|_| text(r, c)).collect()
    };
    let k = len(r);
    let levels = texts(r, &mut c, k);
    let k = len(r);
    c.i32(k as i32);
    let keyframes = (0..k)
        .map(|_| {
            let x = KeyFrame { time: if o.finite { r.f32_finite() } else { r.f32_any() }, frame: r.i32e(), position: r.i32e() };
            c.f32(x.time);
            c.i32(x.frame);
            c.i32(x.position);
            x
        })
        .collect();
    c.i32(n.data.len() as i32);
    let net_rel = c.0.len();
    c.raw(&n.data);
    let k = len(r);
    c.i32(k as i32);
    let debug_info = (0..k)
        .map(|_| {
            let frame = r.i32e();
            c.i32(frame);
            let user = text(r, &mut c);
            let text = text(r, &mut c);
            DebugInfo { frame, user, text }
        })
        .collect();
    let k = len(r);
    c.i32(k as i32);
    let tick_marks = (0..k)
        .map(|_| {
            let description = text(r, &mut c);
            let frame = r.i32e();
            c.i32(frame);
            TickMark { description, frame }
        })
        .collect();
    let k = len(r);
    let packages = texts(r, &mut c, k);
    c.i32(w.objects.len() as i32);
    for x in &w.objects {
        c.str(x);
    }
    let k = len(r);
    let names = texts(r, &mut c, k);
    let k = len(r);
    c.i32(k as i32);
    let class_indices = (0..k)
        .map(|_| {
            let class = ustr(r, &mut c);
            let index = r.i32e();
            c.i32(index);
            ClassIndex { class, index }
        })
        .collect();
    c.i32(w.caches.len() as i32);
    for x in &w.caches {
        c.i32(x.object_ind);
        c.i32(x.parent_id);
        c.i32(x.cache_id);
        c.i32(x.properties.len() as i32);
        for p in &x.properties {
            c.i32(p.object_ind);
            c.i32(p.stream_id);
        }
    }
    let (bytes, header_at, content_at) = seal(&h.0, &c.0);
    let expect = Replay {
        header_size: h.0.len() as i32,
        header_crc: crc(&h.0),
        major_version: major,
        minor_version: minor,
        net_version: net,
        game_type,
        properties: props,
        content_size: c.0.len() as i32,
        content_crc: crc(&c.0),
        network_frames: Some(NetworkFrames { frames: n.frames }),
        levels,
        keyframes,
        debug_info,
        tick_marks,
        packages,
        objects: w.objects.clone(),
        names,
        class_indices,
        net_cache: w.caches.clone(),
    };
    let na = content_at.0 + net_rel;
    Synth {
        bytes,
        expect,
        header_at,
        content_at,
        network_at: (na, na + n.data.len()),
        version: (v.0, v.1, v.2),
        marks: n.marks,
        max_channels: mc,
        tags: n.tags,
        widths: n.widths,
        spawns: n.spawns,
        end_marker: n.end_marker,
        net_bits: n.bits,
    }
}

// ---------------------------------------------------------------- attribute values

pub fn enc_vec_raw(b: &mut BitW, net: i32, s: u64, d: [u64; 3]) -> Vector3i {
    b.bounded(s, 4, if net >= 7 { 22 } else { 20 });
    let bias = 1i64 << (s + 1);
    for x in d {
        b.bits(x, s as u32 + 2);
    }
    Vector3i { x: (d[0] as i64 - bias) as i32, y: (d[1] as i64 - bias) as i32, z: (d[2] as i64 - bias) as i32 }
}
pub fn enc_vec(r: &mut Rng, b: &mut BitW, net: i32) -> Vector3i {
    let m = if net >= 7 { 22 } else { 20 };
    let s = r.below(m);
    let lim = 1u64 << (s + 2);
    let mut one = || match r.below(5) {
        0 => 0,
        1 => lim - 1,
        2 => lim / 2,
        _ => r.below(lim),
    };
    let d = [one(), one(), one()];
    enc_vec_raw(b, net, s, d)
}
pub fn enc_rot(r: &mut Rng, b: &mut BitW) -> Rotation {
    let mut one = |b: &mut BitW| {
        if r.chance(2, 3) {
            let v = r.u8e();
            b.bit(true);
            b.u8(v);
            Some(v as i8)
        } else {
            b.bit(false);
            None
        }
    };
    Rotation { yaw: one(b), pitch: one(b), roll: one(b) }
}
fn enc_v3f(r: &mut Rng, b: &mut BitW, net: i32) -> Vector3f {
    v3f(enc_vec(r, b, net))
}
pub fn enc_quat(r: &mut Rng, b: &mut BitW, net: i32, finite: bool) -> Quaternion {
    if net >= 7 {
        let l = r.below(4);
        loop {
            let mut one = || match r.below(8) {
                0 => 0,
                1 => (1 << 18) - 1,
                2 => 1 << 17,
                3..=4 => (1 << 16) + r.below(1 << 17) as u32,
                _ => r.below(1 << 18) as u32,
            };
            let raw = [one(), one(), one()];
            let q = quat_val(l, raw);
            if finite && [q.x, q.y, q.z, q.w].iter().any(|x| !x.is_finite()) {
                continue;
            }
            b.bits(l, 2);
            for x in raw {
                b.bits(x as u64, 18);
            }
            return q;
        }
    } else {
        let raw = [r.below(1 << 16) as u32, *r.pick(&[0u32, 65535, 32768, 32767]), r.below(1 << 16) as u32];
        for x in raw {
            b.bits(x as u64, 16);
        }
        quat_old_val(raw)
    }
}
fn bit(r: &mut Rng, b: &mut BitW) -> bool {
    let x = r.chance(1, 2);
    b.bit(x);
    x
}
fn i32v(r: &mut Rng, b: &mut BitW) -> i32 {
    let x = r.i32e();
    b.i32(x);
    x
}
fn u32v(r: &mut Rng, b: &mut BitW) -> u32 {
    i32v(r, b) as u32
}
fn u8v(r: &mut Rng, b: &mut BitW) -> u8 {
    let x = r.u8e();
    b.u8(x);
    x
}
fn u64v(r: &mut Rng, b: &mut BitW) -> u64 {
    let x = r.u64e();
    b.u64(x);
    x
}
fn act(r: &mut Rng, b: &mut BitW) -> ActorId {
    ActorId(i32v(r, b))
}
fn net_text(r: &mut Rng, b: &mut BitW) -> String {
    let k = text_kind(r);
    let (n, d, s) = match k {
        TextKind::Utf16 | TextKind::Utf16Raw => text_parts(r, k, 512),
        _ => text_parts(r, k, 1024),
    };
    b.i32(n);
    b.bytes(&d);
    s
}
fn nbits(r: &mut Rng, b: &mut BitW, n: u32) -> u64 {
    let lim = 1u64 << n;
    let v = match r.below(5) {
        0 => 0,
        1 => lim - 1,
        2 => lim / 2,
        _ => r.below(lim),
    };
    b.bits(v, n);
    v
}
fn active(r: &mut Rng, b: &mut BitW) -> ActiveActor {
    ActiveActor { active: bit(r, b), actor: act(r, b) }
}
pub fn enc_remote(r: &mut Rng, b: &mut BitW, net: i32, sys: u8) -> RemoteId {
    match sys {
        0 => RemoteId::SplitScreen(nbits(r, b, 24) as u32),
        1 => RemoteId::Steam(u64v(r, b)),
        2 => {
            let n = r.usize(17);
            let mut raw: Vec<u8> = (0..n).map(|_| 1 + r.below(255) as u8).collect();
            let name = w1252(&raw);
            if raw.len() < 16 {
                raw.push(0);
            }
            while raw.len() < 16 {
                raw.push(r.u8());
            }
            b.bytes(&raw);
            let unknown1 = r.bytes(if net >= 1 { 16 } else { 8 });
            b.bytes(&unknown1);
            RemoteId::PlayStation(Ps4Id { online_id: u64v(r, b), name, unknown1 })
        }
        4 => RemoteId::Xbox(u64v(r, b)),
        5 => RemoteId::QQ(u64v(r, b)),
        6 => {
            let online_id = u64v(r, b);
            let unknown1 = r.bytes(24);
            b.bytes(&unknown1);
            RemoteId::Switch(SwitchId { online_id, unknown1 })
        }
        7 => {
            let online_id = u64v(r, b);
            let unknown1 = r.bytes(if net < 10 { 24 } else { 0 });
            b.bytes(&unknown1);
            RemoteId::PsyNet(PsyNetId { online_id, unknown1 })
        }
        _ => RemoteId::Epic(net_text(r, b)),
    }
}
pub const SYSTEMS: [u8; 8] = [0, 1, 2, 4, 5, 6, 7, 11];
fn unique(r: &mut Rng, b: &mut BitW, net: i32) -> UniqueId {
    let system_id = *r.pick(&SYSTEMS);
    b.u8(system_id);
    let remote_id = enc_remote(r, b, net, system_id);
    UniqueId { system_id, remote_id, local_id: u8v(r, b) }
}
fn loadout(r: &mut Rng, b: &mut BitW) -> Loadout {
    let version = match r.below(3) {
        0 => r.u8(),
        _ => *r.pick(&[0u8, 10, 11, 15, 16, 17, 18, 19, 20, 21, 22, 23, 28, 255]),
    };
    b.u8(version);
    let mut l = Loadout {
        version,
        body: u32v(r, b), decal: u32v(r, b), wheels: u32v(r, b), rocket_trail: u32v(r, b), antenna: u32v(r, b),
        topper: u32v(r, b), unknown1: u32v(r, b),
        unknown2: None, engine_audio: None, trail: None, goal_explosion: None, banner: None, product_id: None,
    };
    if version >= 11 {
        l.unknown2 = Some(u32v(r, b));
    }
    if version >= 16 {
        l.engine_audio = Some(u32v(r, b));
        l.trail = Some(u32v(r, b));
        l.goal_explosion = Some(u32v(r, b));
    }
    if version >= 17 {
        l.banner = Some(u32v(r, b));
    }
    if version >= 19 {
        l.product_id = Some(u32v(r, b));
    }
    if version >= 22 {
        for _ in 0..3 {
            u32v(r, b);
        }
    }
    l
}
fn products(r: &mut Rng, b: &mut BitW, a: &AttrCfg) -> Vec<Vec<Product>> {
    let n = match r.below(120) {
        0..=3 => r.usize(30),
        4 => *r.pick(&[63, 64, 127, 128, 129, 254, 255]),
        _ => r.usize(4),
    };
    b.u8(n as u8);
    (0..n)
        .map(|_| {
            let m = match r.below(240) {
                0..=3 => r.usize(40),
                4 => *r.pick(&[31, 32, 64, 127, 128, 254, 255]),
                _ => r.usize(4),
            };
            b.u8(m as u8);
            (0..m)
                .map(|_| {
                    let unknown = bit(r, b);
                    let o = if r.chance(4, 5) { *r.pick(&a.prod) } else { r.i32e() };
                    b.i32(o);
                    let [color, paint, title, special, team] = a.prod;
                    let newp = a.v >= V(868, 18, 0);
                    let value = if o == color {
                        if a.v >= V(868, 23, 8) {
                            ProductValue::NewColor(u32v(r, b))
                        } else if bit(r, b) {
                            ProductValue::OldColor(nbits(r, b, 31) as u32)
                        } else {
                            ProductValue::NoColor
                        }
                    } else if o == paint || (o == team && o != title && o != special) {
                        let v = if newp {
                            nbits(r, b, 31) as u32
                        } else {
                            let v = r.below(14);
                            b.bounded(v, 3, 14);
                            v as u32
                        };
                        match (o == paint, newp) {
                            (true, true) => ProductValue::NewPaint(v),
                            (true, false) => ProductValue::OldPaint(v),
                            (false, true) => ProductValue::NewTeamEdition(v),
                            (false, false) => ProductValue::OldTeamEdition(v),
                        }
                    } else if o == title {
                        ProductValue::Title(net_text(r, b))
                    } else if o == special {
                        ProductValue::SpecialEdition(nbits(r, b, 31) as u32)
                    } else {
                        ProductValue::Absent
                    };
                    Product { unknown, object_ind: ObjectId(o), value }
                })
                .collect()
        })
        .collect()
}

pub fn enc_attr(r: &mut Rng, b: &mut BitW, t: Tag, a: &AttrCfg) -> Attribute {
    use Attribute as A;
    let net = a.v.2;
    let fl = |r: &mut Rng, b: &mut BitW| {
        let f = if a.finite { r.f32_finite() } else { r.f32_any() };
        b.f32(f);
        f
    };
    match t {
        Tag::Boolean => A::Boolean(bit(r, b)),
        Tag::Byte => A::Byte(u8v(r, b)),
        Tag::AppliedDamage => A::AppliedDamage(AppliedDamage { id: u8v(r, b), position: enc_v3f(r, b, net), damage_index: i32v(r, b), total_damage: i32v(r, b) }),
        Tag::DamageState => A::DamageState(DamageState {
            tile_state: u8v(r, b), damaged: bit(r, b), offender: act(r, b), ball_position: enc_v3f(r, b, net), direct_hit: bit(r, b), unknown1: bit(r, b),
        }),
        Tag::CamSettings => A::CamSettings(Box::new(CamSettings {
            fov: fl(r, b), height: fl(r, b), angle: fl(r, b), distance: fl(r, b), stiffness: fl(r, b), swivel: fl(r, b),
            transition: if a.v >= V(868, 20, 0) { Some(fl(r, b)) } else { None },
        })),
        Tag::ClubColors => A::ClubColors(ClubColors { blue_flag: bit(r, b), blue_color: u8v(r, b), orange_flag: bit(r, b), orange_color: u8v(r, b) }),
        Tag::Demolish => A::Demolish(Box::new(Demolish {
            attacker_flag: bit(r, b), attacker: act(r, b), victim_flag: bit(r, b), victim: act(r, b),
            attack_velocity: enc_v3f(r, b, net), victim_velocity: enc_v3f(r, b, net),
        })),
        Tag::DemolishFx => A::DemolishFx(Box::new(DemolishFx {
            custom_demo_flag: bit(r, b), custom_demo_id: i32v(r, b), attacker_flag: bit(r, b), attacker: act(r, b), victim_flag: bit(r, b),
            victim: act(r, b), attack_velocity: enc_v3f(r, b, net), victim_velocity: enc_v3f(r, b, net),
        })),
        Tag::DemolishExtended => A::DemolishExtended(Box::new(DemolishExtended {
            attacker_pri: active(r, b), self_demo: active(r, b), self_demolish: bit(r, b), goal_explosion_owner: active(r, b),
            attacker: active(r, b), victim: active(r, b), attacker_velocity: enc_v3f(r, b, net), victim_velocity: enc_v3f(r, b, net),
        })),
        Tag::Enum => A::Enum(nbits(r, b, 11) as u16),
        Tag::Explosion => A::Explosion(Explosion { flag: bit(r, b), actor: act(r, b), location: enc_v3f(r, b, net) }),
        Tag::ExtendedExplosion => A::ExtendedExplosion(ExtendedExplosion {
            explosion: Explosion { flag: bit(r, b), actor: act(r, b), location: enc_v3f(r, b, net) },
            unknown1: bit(r, b),
            secondary_actor: act(r, b),
        }),
        Tag::FlaggedByte => A::FlaggedByte(bit(r, b), u8v(r, b)),
        Tag::ActiveActor => A::ActiveActor(active(r, b)),
        Tag::Float => A::Float(fl(r, b)),
        Tag::GameMode => {
            let n = if a.v < V(868, 12, 0) { 2 } else { 8 };
            A::GameMode(n, nbits(r, b, n as u32) as u8)
        }
        Tag::Int => A::Int(i32v(r, b)),
        Tag::Int64 => A::Int64(u64v(r, b) as i64),
        Tag::Loadout => A::Loadout(Box::new(loadout(r, b))),
        Tag::TeamLoadout => A::TeamLoadout(Box::new(TeamLoadout { blue: loadout(r, b), orange: loadout(r, b) })),
        Tag::Location => A::Location(enc_v3f(r, b, net)),
        Tag::MusicStinger => A::MusicStinger(MusicStinger { flag: bit(r, b), cue: u32v(r, b), trigger: u8v(r, b) }),
        Tag::Pickup => A::Pickup(Pickup { instigator: if bit(r, b) { Some(act(r, b)) } else { None }, picked_up: bit(r, b) }),
        Tag::PickupNew => A::PickupNew(PickupNew { instigator: if bit(r, b) { Some(act(r, b)) } else { None }, picked_up: u8v(r, b) }),
        Tag::PlayerHistoryKey => A::PlayerHistoryKey(nbits(r, b, 14) as u16),
        Tag::QWordString if a.is_223 => A::String(net_text(r, b)),
        Tag::QWordString => A::QWord(u64v(r, b)),
        Tag::Welded => A::Welded(Welded { active: bit(r, b), actor: act(r, b), offset: enc_v3f(r, b, net), mass: fl(r, b), rotation: enc_rot(r, b) }),
        Tag::RigidBody => {
            let sleeping = bit(r, b);
            let location = enc_v3f(r, b, net);
            let rotation = enc_quat(r, b, net, a.finite);
            let (linear_velocity, angular_velocity) = if sleeping { (None, None) } else { (Some(enc_v3f(r, b, net)), Some(enc_v3f(r, b, net))) };
            A::RigidBody(RigidBody { sleeping, location, rotation, linear_velocity, angular_velocity })
        }
        Tag::Title => A::Title(bit(r, b), bit(r, b), u32v(r, b), u32v(r, b), u32v(r, b), u32v(r, b), u32v(r, b), bit(r, b)),
        Tag::TeamPaint => A::TeamPaint(TeamPaint {
            team: u8v(r, b), primary_color: u8v(r, b), accent_color: u8v(r, b), primary_finish: u32v(r, b), accent_finish: u32v(r, b),
        }),
        Tag::NotImplemented => unreachable!(),
        Tag::String => A::String(net_text(r, b)),
        Tag::UniqueId => A::UniqueId(Box::new(unique(r, b, net))),
        Tag::Reservation => {
            let number = nbits(r, b, 3) as u32;
            let unique_id = if r.chance(1, 3) {
                // split screen players: nobody (0) or a local player name
                b.u8(0);
                let v = if r.chance(1, 2) { 0 } else { 1 + r.below((1 << 24) - 1) as u32 };
                b.bits(v as u64, 24);
                UniqueId { system_id: 0, remote_id: RemoteId::SplitScreen(v), local_id: u8v(r, b) }
            } else {
                unique(r, b, net)
            };
            let name = if unique_id.system_id != 0 {
                Some(net_text(r, b))
            } else if unique_id.remote_id != RemoteId::SplitScreen(0) {
                // zero-terminated Latin-1 up to 255 bytes of UTF-8
                let want = if r.chance(1, 10) { 300 } else { r.usize(40) };
                let mut s = String::new();
                loop {
                    if s.len() >= 255 {
                        break;
                    }
                    if s.chars().count() == want {
                        b.u8(0);
                        break;
                    }
                    let c = 1 + r.below(255) as u8;
                    b.u8(c);
                    s.push(c as char);
                }
                Some(s)
            } else {
                None
            };
            A::Reservation(Box::new(Reservation {
                number,
                unique_id,
                name,
                unknown1: bit(r, b),
                unknown2: bit(r, b),
                unknown3: if a.v >= V(868, 12, 0) { Some(nbits(r, b, 6) as u8) } else { None },
            }))
        }
        Tag::PartyLeader => {
            if r.chance(1, 4) {
                b.u8(0);
                A::PartyLeader(None)
            } else {
                let system_id = *r.pick(&SYSTEMS[1..]);
                b.u8(system_id);
                let remote_id = enc_remote(r, b, net, system_id);
                A::PartyLeader(Some(Box::new(UniqueId { system_id, remote_id, local_id: u8v(r, b) })))
            }
        }
        Tag::PrivateMatchSettings => A::PrivateMatch(Box::new(PrivateMatchSettings {
            mutators: net_text(r, b), joinable_by: u32v(r, b), max_players: u32v(r, b), game_name: net_text(r, b), password: net_text(r, b), flag: bit(r, b),
        })),
        Tag::LoadoutOnline => A::LoadoutOnline(products(r, b, a)),
        Tag::LoadoutsOnline => A::LoadoutsOnline(LoadoutsOnline {
            blue: products(r, b, a), orange: products(r, b, a), unknown1: bit(r, b), unknown2: bit(r, b),
        }),
        Tag::StatEvent => A::StatEvent(StatEvent { unknown1: bit(r, b), object_id: i32v(r, b) }),
        Tag::RotationTag => A::Rotation(enc_rot(r, b)),
        Tag::RepStatTitle => A::RepStatTitle(RepStatTitle { unknown: bit(r, b), name: net_text(r, b), unknown2: bit(r, b), index: u32v(r, b), value: u32v(r, b) }),
        Tag::PickupInfo => A::PickupInfo(PickupInfo { available_pickups: [active(r, b), active(r, b), active(r, b)], items_are_preview: bit(r, b) }),
        Tag::Impulse => A::Impulse(Impulse { compressed_rotation: i32v(r, b), speed: fl(r, b) }),
        Tag::ReplicatedBoost => A::ReplicatedBoost(ReplicatedBoost { grant_count: u8v(r, b), boost_amount: u8v(r, b), unused1: u8v(r, b), unused2: u8v(r, b) }),
        Tag::LogoData => A::LogoData(LogoData { logo_id: u32v(r, b), swap_colors: bit(r, b) }),
    }
}
