//! The byte-level part of a replay: header, body, text, checksums, limits.
use super::*;
use crate::bitio::BitW;
use crate::corpus;
use crate::gen::{self, seal, ByteW, NetOpts, TextKind};
use crate::hostile;
use crate::mini::{one_attr, Mini};
use crate::model::Tag;
use crate::refdec::{self, crc, utf16, w1252, w1252_char};
use crate::rng::Rng;
use serde_json::json;

fn policies(r: &mut Rng) -> (CrcCheck, NetworkParse) {
    (*r.pick(&CRCS), *r.pick(&NETS))
}

// ------------------------------------------------------------------ C04 header

pub static C04: Prop = Prop {
    id: "C04",
    quick: 1_000_000,
    thorough: 8_000_000,
    run: c04,
    rule: "a case is a replay whose header was generated value by value (or a bundled real replay); every header field, property (name, kind, value, order, nesting) and accessor result is compared with what was written",
    need: &[("streams decoded as the first entries say", 10_000), ("settings of the wrong kind first", 3_000), ("settings given repeatedly", 10_000), ("generated headers compared", 9000), ("real replays compared", 100), ("array property", 500), ("struct property", 500), ("quirks header", 300), ("repeated key", 300), ("nested header compared", 25)],
    assumptions: &["header values were written by the harness' own encoder", "real replays are compared against the harness' reference decoder"],
};
fn accessors(ctx: &mut Ctx, d: &[u8], p: &HeaderProp, depth: usize) {
    let (mut ar, mut bo, mut fl, mut qw, mut it, mut st, mut by) = (None, None, None, None, None, None, false);
    match p {
        HeaderProp::Array(a) => {
            ctx.hit("array property");
            ar = Some(a);
            for x in a.iter().flatten() {
                accessors(ctx, d, &x.1, depth + 1)
            }
        }
        HeaderProp::Struct { fields, .. } => {
            ctx.hit("struct property");
            for x in fields {
                accessors(ctx, d, &x.1, depth + 1)
            }
        }
        HeaderProp::Bool(b) => bo = Some(*b),
        HeaderProp::Byte { .. } => by = true,
        HeaderProp::Float(f) => fl = Some(f.to_bits()),
        HeaderProp::Int(i) => it = Some(*i),
        HeaderProp::QWord(q) => qw = Some(*q),
        HeaderProp::Name(s) | HeaderProp::Str(s) => st = Some(s.as_str()),
    }
    let ok = p.as_array() == ar
        && p.as_bool() == bo
        && p.as_float().map(|f| f.to_bits()) == fl
        && p.as_u64() == qw
        && p.as_i32() == it
        && p.as_string() == st
        && p.is_byte() == by;
    let ok = ok || matches!(p, HeaderProp::Array(_)) && p.as_array().map(|x| strict(x, ar.unwrap())) == Some(true)
        && p.as_bool().is_none() && p.as_float().is_none() && p.as_u64().is_none() && p.as_i32().is_none() && p.as_string().is_none() && !p.is_byte();
    if !ok {
        ctx.bad("accessor", format!("accessor disagrees with the value it is called on: {p:?}"), Some(d))
    }
}
fn c04(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let good = corpus::good();
    if (i as usize) < good.len() {
        let (n, d) = &good[i as usize];
        let Some((got, want)) = both(ctx, d, CrcCheck::Always, NetworkParse::Never) else { return };
        ctx.eval(d, true);
        ctx.hit("real replays compared");
        match (&got, &want.result) {
            (Ok(a), Ok(b)) => {
                if let Some(x) = header_diff(a, b) {
                    ctx.bad(format!("real:{n}"), format!("{n}: {x}"), None)
                }
                for (_, p) in &a.properties {
                    accessors(ctx, d, p, 0)
                }
            }
            (Err(e), Ok(_)) => ctx.bad(format!("real:{n}"), format!("{n}: {e}"), None),
            (_, Err(_)) => {}
        }
        return;
    }
    if i % 400 == 399 {
        // one chain of containers, as deep as has to be supported
        let depth = 1 + r.usize(NEST_OK);
        let mut p = ("x".to_string(), HeaderProp::Int(r.i32e()));
        for _ in 0..depth {
            p = match r.below(3) {
                0 => ("s".to_string(), HeaderProp::Struct { name: "N".into(), fields: vec![p] }),
                1 => ("a".to_string(), HeaderProp::Array(vec![vec![], vec![p]])),
                _ => ("b".to_string(), HeaderProp::Array(vec![vec![p]])),
            };
        }
        let m = Mini { props: vec![("a".into(), HeaderProp::Bool(true)), p, ("z".into(), HeaderProp::QWord(7))], ..Default::default() };
        let d = m.bytes();
        let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
        ctx.eval(&d, true);
        ctx.hit("nested header compared");
        match got {
            Ok(g) if strict(&g.properties, &m.props) => {}
            Ok(g) => ctx.bad("nested", differ("properties", &g.properties, &m.props), Some(&d)),
            Err(e) => ctx.bad("nested", format!("properties nested {depth} deep rejected: {e}"), Some(&d)),
        }
        return;
    }
    if i % 400 == 398 {
        // wide: many elements in an array and many properties
        let n = r.usize(3000);
        let el: Vec<_> = (0..n).map(|k| if k % 3 == 0 { vec![] } else { vec![("frame".to_string(), HeaderProp::Int(k as i32))] }).collect();
        let mut props = vec![("Goals".to_string(), HeaderProp::Array(el))];
        for k in 0..r.usize(3000) {
            props.push((format!("k{k}"), HeaderProp::QWord(k as u64)))
        }
        let m = Mini { props, ..Default::default() };
        let d = m.bytes();
        let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Never)) else { return };
        ctx.eval(&d, true);
        match got {
            Ok(g) if strict(&g.properties, &m.props) => {}
            Ok(g) => ctx.bad("wide", differ("properties", &g.properties, &m.props), Some(&d)),
            Err(e) => ctx.bad("wide", format!("rejected: {e}"), Some(&d)),
        }
        return;
    }
    if i % 8 == 1 {
        return super::net::settings(ctx, &mut r);
    }
    let o = NetOpts { frames: 1, ops: 2, classes: 1, rich_header: true, ..Default::default() };
    let s = gen::synth(&mut r, &o);
    let (c, n) = policies(&mut r);
    let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, c, n)) else { return };
    ctx.eval(&s.bytes[s.header_at.0..s.header_at.1], true);
    ctx.hit("generated headers compared");
    if s.version.0 == 0 && s.version.1 == 0 {
        ctx.hit("quirks header")
    }
    match &got {
        Ok(g) => {
            if let Some(x) = header_diff(g, &s.expect) {
                ctx.bad("generated", x, Some(&s.bytes))
            }
            let mut seen = std::collections::HashSet::new();
            for (k, p) in &g.properties {
                if !seen.insert(k) {
                    ctx.hit("repeated key")
                }
                accessors(ctx, &s.bytes, p, 0)
            }
        }
        Err(e) => ctx.bad("generated", format!("well-formed header rejected: {e:.300}"), Some(&s.bytes)),
    }
    ctx.sample(|| json!({"version": format!("{:?}", s.version), "properties": s.expect.properties.len(), "header_bytes": s.header_at.1 - s.header_at.0}));
}

// ------------------------------------------------------------------ C05 body and footer

pub static C05: Prop = Prop {
    id: "C05",
    quick: 500_000,
    thorough: 6_000_000,
    run: c05,
    rule: "a case is a replay whose body lists were generated entry by entry (or a bundled real replay); every body field is compared with what was written",
    need: &[("generated bodies compared", 9000), ("real replays compared", 100), ("keyframes", 3000), ("debug info", 3000), ("tick marks", 3000), ("class indices", 3000), ("net cache properties", 3000), ("long list", 100), ("lists of texts much alike", 100)],
    assumptions: &["body values were written by the harness' own encoder"],
};
fn c05(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let good = corpus::good();
    if (i as usize) < good.len() {
        let (n, d) = &good[i as usize];
        let Some((got, want)) = both(ctx, d, CrcCheck::Always, NetworkParse::Never) else { return };
        ctx.eval(d, true);
        ctx.hit("real replays compared");
        match (&got, &want.result) {
            (Ok(a), Ok(b)) => {
                if let Some(x) = body_diff(a, b) {
                    ctx.bad(format!("real:{n}"), format!("{n}: {x}"), None)
                }
            }
            (Err(e), Ok(_)) => ctx.bad(format!("real:{n}"), format!("{n}: {e}"), None),
            (_, Err(_)) => {}
        }
        return;
    }
    if i % 1000 == 999 || i % 1000 == 499 {
        // one list at length, or one of long texts that are much alike
        let twins = i % 1000 == 499;
        let (first, last) = ("p".repeat(r.usize(160)), "s".repeat(r.usize(160)));
        let near = r.usize(3);
        let text = |r: &mut Rng, c: &mut ByteW| {
            if !twins {
                return gen::text(r, c);
            }
            let mut mid = |n: usize| (0..n).map(|_| *r.pick(&['0', '1', 'a'])).collect::<String>();
            let s = match near {
                // of one length and with the same ends; or the same but for one end
                0 => format!("{first}{}{last}", mid(2)),
                1 => format!("{}{first}{last}", mid(2)),
                _ => format!("{first}{last}{}", mid(2)),
            };
            if r.chance(1, 8) {
                crate::mini::put_text(c, &format!("{s}\u{416}"));
                return format!("{s}\u{416}");
            }
            c.str(&s);
            s
        };
        let n = match r.below(4) {
            0 => 25_000,
            1 => *r.pick(&[255, 256, 257, 4095, 4096, 8192, 16_384, 24_999]),
            _ => 300 + r.usize(24_701),
        };
        let n = if twins { 2 + n % 40 } else { n };
        let which = (i / 1000 % 10) as usize;
        let mut want = Replay { header_size: 0, header_crc: 0, major_version: 868, minor_version: 17, net_version: None, game_type: "G".into(), properties: vec![], content_size: 0, content_crc: 0,
            network_frames: None, levels: vec![], keyframes: vec![], debug_info: vec![], tick_marks: vec![], packages: vec![], objects: vec![], names: vec![], class_indices: vec![], net_cache: vec![] };
        let mut h = ByteW::default();
        h.i32(868);
        h.i32(17);
        h.str("G");
        h.str("None");
        let mut c = ByteW::default();
        let len = |w: usize| if w == which { n } else { usize::from(w % 2 == 0) };
        let list = |c: &mut ByteW, w: usize| {
            c.i32(len(w) as i32);
            0..len(w)
        };
        let ints = |r: &mut Rng, c: &mut ByteW| {
            let x = r.i32e();
            c.i32(x);
            x
        };
        want.levels = list(&mut c, 0).map(|_| text(&mut r, &mut c)).collect();
        for _ in list(&mut c, 1) {
            let time = r.f32_any();
            c.f32(time);
            let (frame, position) = (ints(&mut r, &mut c), ints(&mut r, &mut c));
            want.keyframes.push(KeyFrame { time, frame, position });
        }
        let net = r.usize(70_000);
        c.i32(net as i32);
        c.raw(&r.bytes(net));
        for _ in list(&mut c, 2) {
            let frame = ints(&mut r, &mut c);
            let user = text(&mut r, &mut c);
            want.debug_info.push(DebugInfo { frame, user, text: text(&mut r, &mut c) });
        }
        for _ in list(&mut c, 3) {
            let description = text(&mut r, &mut c);
            want.tick_marks.push(TickMark { description, frame: ints(&mut r, &mut c) });
        }
        want.packages = list(&mut c, 4).map(|_| text(&mut r, &mut c)).collect();
        want.objects = list(&mut c, 5).map(|_| text(&mut r, &mut c)).collect();
        want.names = list(&mut c, 6).map(|_| text(&mut r, &mut c)).collect();
        for _ in list(&mut c, 7) {
            let class = if twins { let t = format!("{first}{}{last}", r.below(4)); c.str(&t); t } else { gen::ustr(&mut r, &mut c) };
            want.class_indices.push(ClassIndex { class, index: ints(&mut r, &mut c) });
        }
        for _ in list(&mut c, 8) {
            let (object_ind, parent_id, cache_id) = (ints(&mut r, &mut c), ints(&mut r, &mut c), ints(&mut r, &mut c));
            let k = if which == 9 { n } else { r.usize(3) };
            c.i32(k as i32);
            let properties = (0..k).map(|_| CacheProp { object_ind: ints(&mut r, &mut c), stream_id: ints(&mut r, &mut c) }).collect();
            want.net_cache.push(ClassNetCache { object_ind, parent_id, cache_id, properties });
        }
        let (d, ..) = seal(&h.0, &c.0);
        want.header_size = h.0.len() as i32;
        want.content_size = c.0.len() as i32;
        want.header_crc = crate::refdec::crc(&h.0);
        want.content_crc = crate::refdec::crc(&c.0);
        let (chk, p) = (*r.pick(&[CrcCheck::Always, CrcCheck::Never, CrcCheck::OnError]), *r.pick(&[NetworkParse::Never, NetworkParse::IgnoreOnError]));
        let Some(got) = ctx.guard("parse", &d, || opts(&d, chk, p)) else { return };
        ctx.eval(&d, true);
        ctx.hit(if twins { "lists of texts much alike" } else { "long list" });
        match got {
            Ok(g) => {
                if let Some(x) = body_diff(&g, &want) {
                    ctx.bad("long list", format!("list {which} of {n} entries: {x}"), None)
                }
            }
            Err(e) => ctx.bad("long list", format!("list {which} of {n} entries refused: {e:.300}"), None),
        }
        return;
    }
    let o = NetOpts { frames: 1, ops: 1, classes: 1 + r.usize(3), rich_body: true, ..Default::default() };
    let s = gen::synth(&mut r, &o);
    let (c, n) = policies(&mut r);
    let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, c, n)) else { return };
    ctx.eval(&s.bytes[s.content_at.0..s.content_at.1], true);
    ctx.hit("generated bodies compared");
    ctx.add("keyframes", s.expect.keyframes.len() as u64);
    ctx.add("debug info", s.expect.debug_info.len() as u64);
    ctx.add("tick marks", s.expect.tick_marks.len() as u64);
    ctx.add("class indices", s.expect.class_indices.len() as u64);
    ctx.add("net cache properties", s.expect.net_cache.iter().map(|c| c.properties.len() as u64).sum());
    match &got {
        Ok(g) => {
            if let Some(x) = body_diff(g, &s.expect) {
                ctx.bad("generated", x, Some(&s.bytes))
            }
        }
        Err(e) => ctx.bad("generated", format!("well-formed body rejected: {e:.300}"), Some(&s.bytes)),
    }
    ctx.sample(|| json!({"levels": s.expect.levels.len(), "keyframes": s.expect.keyframes.len(), "net_cache": s.expect.net_cache.len(), "content_bytes": s.content_at.1 - s.content_at.0}));
}

// ------------------------------------------------------------------ C06 text

pub static C06: Prop = Prop {
    id: "C06",
    quick: 600_000,
    thorough: 3_000_000,
    run: c06,
    rule: "a case is a piece of text placed in one text position of a replay; the decoded string is compared with the harness' own Windows-1252 / UTF-16 / UTF-8 decoding. All 256 bytes and all 65,536 UTF-16 units are covered in each class of position",
    need: &[("windows-1252 byte values in file text", 256 * 8), ("utf-16 units in file text", 65536), ("utf-16 units in network text", 65536), ("windows-1252 byte values in network text", 256 * 8), ("network text", 3000), ("invalid utf-8 refused", 200), ("valid utf-8 accepted", 200), ("console name", 300)],
    assumptions: &["Windows-1252 as in the WHATWG encoding standard (undefined bytes map to C1 controls)"],
};
/// the file with one text in every file-level text position, or only in the given one (of 11) with
/// "-" in the others
fn text_file(len: i32, raw: &[u8], only: Option<usize>) -> Vec<u8> {
    let mut h = ByteW::default();
    h.i32(868);
    h.i32(17);
    let at = std::cell::Cell::new(0);
    let put = |w: &mut ByteW| {
        if only.map_or(true, |x| x == at.get()) {
            w.i32(len);
            w.raw(raw);
        } else {
            w.str("-");
        }
        at.set(at.get() + 1);
    };
    put(&mut h);
    for k in ["NameProperty", "StrProperty"] {
        h.str("key");
        h.str(k);
        h.i32(0);
        h.i32(0);
        put(&mut h);
    }
    h.str("None");
    let mut c = ByteW::default();
    c.i32(2);
    put(&mut c);
    put(&mut c);
    c.i32(0);
    c.i32(0);
    c.i32(1);
    c.i32(5);
    put(&mut c);
    put(&mut c);
    c.i32(1);
    put(&mut c);
    c.i32(9);
    for _ in 0..3 {
        c.i32(1);
        put(&mut c);
    }
    c.i32(0);
    c.i32(0);
    seal(&h.0, &c.0).0
}
const TEXT_AT: usize = 11;
/// one text in every file-level text position; what must come back
fn text_everywhere(len: i32, raw: &[u8], want: &str) -> (Vec<u8>, impl Fn(&Replay) -> Option<String>) {
    let want = want.to_string();
    (text_file(len, raw, None), move |r: &Replay| {
        let mut v: Vec<(&str, &str)> = vec![("game type", &r.game_type)];
        for (_, p) in &r.properties {
            v.push((if matches!(p, HeaderProp::Name(_)) { "name property" } else { "str property" }, p.as_string().unwrap_or("<none>")));
        }
        if r.properties.len() != 2 || r.levels.len() != 2 || r.debug_info.len() != 1 || r.tick_marks.len() != 1 || r.packages.len() != 1 || r.objects.len() != 1 || r.names.len() != 1 {
            return Some("wrong number of entries".into());
        }
        v.push(("level", &r.levels[0]));
        v.push(("level", &r.levels[1]));
        v.push(("debug user", &r.debug_info[0].user));
        v.push(("debug text", &r.debug_info[0].text));
        v.push(("tick mark", &r.tick_marks[0].description));
        v.push(("package", &r.packages[0]));
        v.push(("object", &r.objects[0]));
        v.push(("name", &r.names[0]));
        v.into_iter().find(|(_, s)| *s != want).map(|(w, s)| {
            let n = s.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
            let cut = |x: &str| x.chars().skip(n.saturating_sub(3)).take(20).collect::<String>();
            format!("{w}: decoded as ..{:?}, should be ..{:?}", cut(s), cut(&want))
        })
    })
}
fn file_text(ctx: &mut Ctx, len: i32, raw: &[u8], want: &str) {
    let (d, check) = text_everywhere(len, raw, want);
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&d, true);
    match got {
        Ok(g) => {
            if let Some(x) = check(&g) {
                ctx.bad("file text", x, Some(&d))
            }
        }
        Err(e) => ctx.bad("file text", format!("text of length field {len} rejected: {e}"), Some(&d)),
    }
}
/// the same text as a network string, starting at the given bit of a byte
fn network_text(ctx: &mut Ctx, align: usize, len: i32, raw: &[u8], want: &str) {
    let (mut m, mut s, _) = one_attr((868, 32, 10), "Engine.GameReplicationInfo:ServerName", 0, false);
    // an empty actor update shifts what follows; the attribute id has one or no bits
    let b = &mut s.b;
    b.i32(0); // first value: empty string
    let mut n = 0;
    // pad with repeated empty-string attributes until the next value lands on `align`
    while (b.n + 1) % 8 != align && n < 16 {
        b.bit(true);
        b.i32(0);
        n += 1;
    }
    b.bit(true);
    let at = b.n % 8;
    b.i32(len);
    b.bytes(raw);
    b.bit(true);
    b.i32(0);
    s.end_update();
    s.end_frame();
    s.b.u32(0);
    m.net = s.b.b.clone();
    m = m.int("NumFrames", 1);
    let d = m.bytes();
    ctx.hit("network text");
    ctx.hit(format!("network text at bit {at}"));
    ctx.eval(&d, true);
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    let g = match got {
        Ok(g) => g,
        Err(e) => return ctx.bad("network text", format!("network text of length field {len} at bit {at} rejected: {e:.200}"), Some(&d)),
    };
    let up = &g.network_frames.as_ref().unwrap().frames[0].updated_actors;
    let vals: Vec<&Attribute> = up.iter().map(|u| &u.attribute).collect();
    let ok = vals.len() == n + 3
        && vals.iter().enumerate().all(|(i, a)| match a {
            Attribute::String(x) => x == if i == n + 1 { want } else { "" },
            _ => false,
        });
    if !ok {
        ctx.bad("network text", format!("network text (length field {len}, bit {at}) decoded as {:?}, should be {want:?}", vals.get(n + 1)), Some(&d))
    }
}
fn c06(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    match i {
        // every byte value, in every position of an 8-byte cycle and surrounded by ASCII
        0..=7 => {
            let pad = "a".repeat(i as usize);
            for b in 0..=255u8 {
                let mut raw = pad.clone().into_bytes();
                raw.extend_from_slice(&[b, b'x', b]);
                let want = w1252(&raw);
                assert_eq!(want.chars().nth(i as usize), Some(w1252_char(b)));
                raw.push(0);
                file_text(ctx, raw.len() as i32, &raw, &want);
                network_text(ctx, i as usize, raw.len() as i32, &raw, &want);
                ctx.hit("windows-1252 byte values in file text");
                ctx.hit("windows-1252 byte values in network text");
            }
            // and all of them at once
            let mut raw: Vec<u8> = (0..=255).rev().collect();
            let want = w1252(&raw);
            raw.push(0);
            file_text(ctx, raw.len() as i32, &raw, &want);
            network_text(ctx, i as usize, raw.len() as i32, &raw, &want);
        }
        // every UTF-16 unit on its own and between letters
        8..=135 => {
            for blk in 0..4u32 {
                let lo = ((i as u32 - 8) * 4 + blk) * 128;
                let units: Vec<u16> = (lo..lo + 128).flat_map(|u| [u as u16, b'x' as u16]).collect();
                let mut raw: Vec<u8> = units.iter().flat_map(|u| u.to_le_bytes()).collect();
                let want = utf16(&raw);
                assert_eq!(want, String::from_utf16_lossy(&units));
                raw.extend_from_slice(&[0, 0]);
                file_text(ctx, -(units.len() as i32) - 1, &raw, &want);
                network_text(ctx, (i % 8) as usize, -(units.len() as i32) - 1, &raw, &want);
                ctx.add("utf-16 units in file text", 128);
                ctx.add("utf-16 units in network text", 128);
            }
        }
        // the terminator is dropped whatever it is; lengths up to the limits
        136..=199 => {
            for n in [1usize, 2, 3, 9_999, 10_000, 5_000 + r.usize(5000), r.usize(300) + 1] {
                let raw: Vec<u8> = (0..n).map(|_| r.u8()).collect();
                file_text(ctx, n as i32, &raw, &w1252(&raw[..n - 1]));
                let raw = r.bytes(2 * n);
                file_text(ctx, -(n as i32), &raw, &utf16(&raw[..2 * n - 2]));
            }
            for n in [1usize, 2, 511, 512, 513, 1023, 1024, r.usize(1024) + 1] {
                let raw = r.bytes(n);
                network_text(ctx, (i % 8) as usize, n as i32, &raw, &w1252(&raw[..n - 1]));
                if n <= 512 {
                    let raw = r.bytes(2 * n);
                    network_text(ctx, (i % 8) as usize, -(n as i32), &raw, &utf16(&raw[..2 * n - 2]));
                }
            }
            file_text(ctx, 0, &[], "");
        }
        _ if i % 4 == 0 => {
            let kind = *r.pick(&[TextKind::Ascii, TextKind::W1252, TextKind::Utf16, TextKind::Utf16Raw, TextKind::Empty]);
            let (n, raw, want) = gen::text_parts(&mut r, kind, 9_999);
            file_text(ctx, n, &raw, &want);
        }
        _ if i % 4 == 1 => {
            let kind = *r.pick(&[TextKind::Ascii, TextKind::W1252, TextKind::Utf16, TextKind::Utf16Raw, TextKind::Empty]);
            let (n, raw, want) = gen::text_parts(&mut r, kind, 500);
            network_text(ctx, (i / 4 % 8) as usize, n, &raw, &want);
        }
        _ if i % 4 == 2 => utf8_key(ctx, &mut r),
        _ => {
            // names inside unique ids and reservations, product titles
            let t = *r.pick(&[Tag::UniqueId, Tag::Reservation, Tag::PartyLeader, Tag::PrivateMatchSettings, Tag::RepStatTitle, Tag::LoadoutOnline, Tag::QWordString, Tag::String]);
            let o = NetOpts { frames: 2, ops: 8, classes: 2, tags: vec![t, Tag::Boolean], ..Default::default() };
            let s = gen::synth(&mut r, &o);
            ctx.add("console name", s.tags.get(&t).copied().unwrap_or(0) as u64);
            let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, CrcCheck::Always, NetworkParse::Always)) else { return };
            ctx.eval(&s.bytes, true);
            match got {
                Ok(g) => {
                    if let Some(x) = frames_diff(&g.network_frames, &s.expect.network_frames, true) {
                        ctx.bad("network text", x, Some(&s.bytes))
                    }
                }
                Err(e) => ctx.bad("network text", format!("rejected: {e:.200}"), Some(&s.bytes)),
            }
        }
    }
}
/// keys, struct names, class names: length-prefixed UTF-8, refused when it is not UTF-8
fn utf8_key(ctx: &mut Ctx, r: &mut Rng) {
    let n = if r.chance(1, 4) { r.usize(600) } else { r.usize(20) };
    let mut raw: Vec<u8> = if r.chance(1, 2) { hostile::long_text(r, n).into_bytes() } else { (0..n).flat_map(|_| gen::rand_char(r).to_string().into_bytes()).collect() };
    match r.below(5) {
        // what is wrong may be anywhere
        4 if !raw.is_empty() => {
            let at = r.usize(raw.len());
            raw[at] = *r.pick(&[0x80u8, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf5, 0xff])
        }
        0 => hostile::flip(r, &mut raw, 1),
        1 => {
            let n = r.usize(raw.len() + 1);
            raw.truncate(n)
        }
        2 => raw.extend_from_slice(r.pick(&[&[0xc0u8, 0x80][..], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xff], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98]])),
        _ => {}
    }
    if raw == b"None" {
        return;
    }
    let want = String::from_utf8(raw.clone());
    let place = r.below(4);
    let mut h = ByteW::default();
    h.i32(868);
    h.i32(17);
    h.str("G");
    let put = |w: &mut ByteW| {
        w.i32(raw.len() as i32 + 1);
        w.raw(&raw);
        w.raw(&[0]);
    };
    match place {
        0 => {
            put(&mut h);
            h.str("IntProperty");
            h.i32(0);
            h.i32(0);
            h.i32(77);
        }
        1 => {
            h.str("k");
            h.str("StructProperty");
            h.i32(0);
            h.i32(0);
            put(&mut h);
            h.str("None");
        }
        2 => {
            h.str("k");
            h.str("ByteProperty");
            h.i32(0);
            h.i32(0);
            put(&mut h);
            put(&mut h);
        }
        _ => {}
    }
    h.str("None");
    let mut m = Mini::default().content();
    if place == 3 {
        let mut c = ByteW::default();
        for _ in 0..8 {
            c.i32(0);
        }
        c.i32(1);
        put(&mut c);
        c.i32(3);
        c.i32(0);
        m = c.0;
    }
    let d = seal(&h.0, &m).0;
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Never)) else { return };
    ctx.eval(&d, true);
    match (want, got) {
        (Err(_), Err(_)) => ctx.hit("invalid utf-8 refused"),
        (Err(_), Ok(_)) => ctx.bad("utf8", format!("bytes that are not UTF-8 accepted as a name: {raw:?}"), Some(&d)),
        (Ok(w), Err(e)) => ctx.bad("utf8", format!("UTF-8 name {w:?} refused: {e}"), Some(&d)),
        (Ok(w), Ok(g)) => {
            ctx.hit("valid utf-8 accepted");
            let ok = match (place, g.properties.first()) {
                (0, Some((k, HeaderProp::Int(77)))) => *k == w,
                (1, Some((_, HeaderProp::Struct { name, fields }))) => *name == w && fields.is_empty(),
                (2, Some((_, HeaderProp::Byte { kind, value }))) => *kind == w && value.as_deref() == Some(&w[..]),
                (3, _) => g.class_indices.len() == 1 && g.class_indices[0].class == w,
                _ => false,
            };
            if !ok {
                ctx.bad("utf8", format!("name {w:?} decoded as {:?} {:?}", g.properties, g.class_indices), Some(&d))
            }
        }
    }
}

// ------------------------------------------------------------------ C07 checksum value

pub static C07: Prop = Prop {
    id: "C07",
    quick: 800_000,
    thorough: 6_000_000,
    run: c07,
    rule: "a case computes checksums (through crc::calc_crc and through always_check_crc) of byte strings and compares with a bit-at-a-time CRC; damaged sections must be refused",
    need: &[("lengths covered", 700), ("large inputs", 14), ("sums of changed memory", 10_000), ("damage to sized sections detected", 700), ("single-bit damage detected", 800), ("burst damage detected", 800), ("stored checksum of a real replay confirmed", 180)],
    assumptions: &["CRC-32, polynomial 0x04c11db7, MSB first, initial register 0x10340dfe, final complement"],
};
/// sections around the powers of two from 4 KiB to 4 MiB, of every length modulo 16, damaged
fn sized_sections(ctx: &mut Ctx, r: &mut Rng, k: usize) {
    let base = match k / 16 % 10 {
        0 => 1 << 12,
        1 => 1 << 16,
        2 => 1 << 20,
        3 => 1 << 21,
        4 => 1 << 22,
        5 => (1 << 20) + r.usize(3 << 20),
        6 => r.usize(1 << 20),
        7 => 3 << r.range(10, 20),
        8 => 1 << r.range(8, 22),
        _ => r.usize(1 << 14),
    };
    let in_header = r.chance(1, 3);
    let mut m = crate::mini::Mini::default();
    if in_header {
        // header entries of whole texts, and a last one that brings the length to what is wanted
        for j in 0..base / 9900 {
            m.props.push((format!("K{j}"), HeaderProp::Str("abcdefghi".repeat(1098))));
        }
        m.props.push(("Rest".into(), HeaderProp::Str("z".repeat(base % 9900))));
        m.props.push(("Last".into(), HeaderProp::Str("y".into())));
        let off = (k % 16 + 16 - m.header().len() % 16) % 16;
        m.props.last_mut().unwrap().1 = HeaderProp::Str("y".repeat(1 + off));
    } else {
        m.net = r.bytes(base);
        let off = (k % 16 + 16 - m.content().len() % 16) % 16;
        m.net.extend(vec![9; off]);
    }
    let (d, h, c) = gen::seal(&m.header(), &m.content());
    let (a, b) = if in_header { h } else { c };
    ctx.hit(format!("sections of {} mod 16 bytes", (b - a) % 16));
    ctx.eval(&d, true);
    let Some(g) = ctx.guard("parse", &[], || opts(&d, CrcCheck::Always, NetworkParse::Never)) else { return };
    if let Err(e) = g {
        ctx.bad("sized:intact", format!("intact section of {} bytes refused: {e}", b - a), None)
    }
    let mut f = d.clone();
    for at in [a, a + r.usize(b - a), b - 1, b - 1 - r.usize((b - a).min(64)), a + (b - a) / 2] {
        let bit = 1u8 << r.below(8);
        f[at] ^= bit;
        let Some(g) = ctx.guard("parse", &[], || opts(&f, CrcCheck::Always, NetworkParse::Never)) else { return };
        let (stored, want) = (u32::from_le_bytes(d[a - 4..a].try_into().unwrap()), crc(&f[a..b]));
        match g {
            Err(ParseError::CrcMismatch(x, y)) if x == stored && y == want => ctx.hit("damage to sized sections detected"),
            g => ctx.bad("sized", format!("section of {} bytes ({}) damaged at byte {}: got {:?}", b - a, if in_header { "header" } else { "content" }, at - a, g.map(|_| "a replay")), None),
        }
        f[at] ^= bit;
    }
}
fn c07(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let same = |ctx: &mut Ctx, d: &[u8]| {
        let Some(got) = ctx.guard("calc_crc", d, || boxcars::crc::calc_crc(d)) else { return };
        let want = crc(d);
        ctx.eval(d, true);
        if got != want {
            ctx.bad("value", format!("crc of {} bytes: got {got:#010x}, expected {want:#010x}", d.len()), if d.len() < 5000 { Some(d) } else { None })
        }
    };
    let good = corpus::good();
    if i < 100 {
        // every short length, at every alignment of the slice
        for n in (i as usize * 7)..(i as usize * 7 + 7) {
            let buf = r.bytes(n + 16);
            for a in 0..16 {
                same(ctx, &buf[a..a + n]);
            }
            for fill in [0u8, 0xff, 0x80, 1] {
                same(ctx, &vec![fill; n]);
            }
            ctx.hit("lengths covered");
        }
        // one set bit anywhere in a few blocks
        for k in 0..(16 * 8 * 3) {
            let mut d = vec![0u8; 16 * 3 + (i as usize % 16)];
            d[k / 8] |= 1 << (k % 8);
            same(ctx, &d);
        }
        return;
    }
    let j = (i - 100) as usize;
    if j < good.len() {
        let (n, d) = &good[j];
        for _ in 0..2 {
            let a = r.usize(d.len());
            let b = a + r.usize((d.len() - a).min(200_000) + 1);
            same(ctx, &d[a..b]);
        }
        let o = refdec::reference(d, CrcCheck::Never, NetworkParse::Never);
        for (range, at) in [(o.header_range, 4usize), (o.content_range, o.header_range.map_or(0, |h| h.1 + 4))] {
            let Some((a, b)) = range else { continue };
            let stored = u32::from_le_bytes(d[at..at + 4].try_into().unwrap());
            if let Some(got) = ctx.guard("calc_crc", &[], || boxcars::crc::calc_crc(&d[a..b])) {
                if got == stored {
                    ctx.hit("stored checksum of a real replay confirmed")
                } else {
                    ctx.bad("real", format!("{n}: checksum stored {stored:#x}, computed {got:#x}"), None)
                }
            }
        }
        return;
    }
    let big = j - good.len();
    if big < if ctx.thorough() { 40 } else { 14 } {
        // megabytes: sections have no limit of size below 2 GiB
        let sizes = [1usize << 16, 1 << 20, 1 << 22, 5 << 20, 1 << 23, (1 << 24) + 1, 20 << 20];
        let n = sizes[big % 7] + r.usize(40);
        let mut d = vec![0u8; n];
        for c in d.chunks_mut(8) {
            let x = r.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
        same(ctx, &d);
        ctx.hit("large inputs");
        // damage anywhere is noticed, at the end too
        let was = boxcars::crc::calc_crc(&d);
        for at in [n - 1, n - 17, r.usize(n), n / 2, 0] {
            let bit = 1u8 << r.below(8);
            d[at] ^= bit;
            let now = boxcars::crc::calc_crc(&d);
            d[at] ^= bit;
            if now == was {
                ctx.bad("large", format!("{n} bytes: a bit changed at {at} does not change the checksum"), None)
            }
        }
        // and through a file with one huge section
        if big % 7 < 4 {
            let mut m = crate::mini::Mini::default();
            m.net = d;
            let f = m.bytes();
            let Some(g) = ctx.guard("parse", &[], || opts(&f, CrcCheck::Always, NetworkParse::Never)) else { return };
            if let Err(e) = g {
                ctx.bad("large", format!("intact file of {} bytes refused: {e}", f.len()), None)
            }
            let mut f = f;
            let k = f.len() - 1;
            f[k] ^= 0x20;
            let Some(g) = ctx.guard("parse", &[], || opts(&f, CrcCheck::Always, NetworkParse::Never)) else { return };
            if !matches!(g, Err(ParseError::CrcMismatch(..))) {
                ctx.bad("large", format!("file of {} bytes damaged at its end: not refused for its checksum", f.len()), None)
            }
        }
        return;
    }
    let sized = big - if ctx.thorough() { 40 } else { 14 };
    if sized < if ctx.thorough() { 1000 } else { 160 } {
        return sized_sections(ctx, &mut r, sized);
    }
    if i % 4 == 3 {
        // the same memory, other contents
        let n = 1 + r.usize(400);
        let mut d = r.bytes(n);
        for _ in 0..6 {
            same(ctx, &d);
            let k = r.usize(n);
            d[k] ^= 1 << r.below(8);
            ctx.hit("sums of changed memory");
        }
    }
    // damage: up to 32 adjacent bits changed are always noticed, and the report names both sums
    let s = gen::synth(&mut r, &NetOpts { frames: 2, ops: 3, classes: 1, ..Default::default() });
    let mut d = s.bytes.clone();
    let in_header = r.chance(1, 2);
    let (a, b) = if in_header { s.header_at } else { s.content_at };
    let single = r.chance(1, 2);
    let bits = if single { 1 } else { 1 + r.usize(32) };
    let at = a * 8 + r.usize((b - a) * 8 - bits + 1);
    for k in 0..bits {
        if k == 0 || k == bits - 1 || r.chance(1, 2) {
            d[(at + k) / 8] ^= 1 << ((at + k) % 8)
        }
    }
    let stored = if in_header { s.expect.header_crc } else { s.expect.content_crc };
    let actual = crc(&d[a..b]);
    assert_ne!(stored, actual);
    let n = *r.pick(&NETS);
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, n)) else { return };
    ctx.eval(&d, true);
    match got {
        Err(ParseError::CrcMismatch(x, y)) if x == stored && y == actual => ctx.hit(if bits == 1 { "single-bit damage detected" } else { "burst damage detected" }),
        Err(e) => ctx.bad("damage", format!("damaged section: expected a checksum mismatch ({stored}, {actual}), got {e:?}"), Some(&d)),
        Ok(_) => ctx.bad("damage", format!("{bits} damaged bit(s) at {at} accepted with always_check_crc"), Some(&d)),
    }
    // undamaged: accepted
    let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, CrcCheck::Always, NetworkParse::Never)) else { return };
    if let Err(e) = got {
        ctx.bad("intact", format!("intact file refused: {e}"), Some(&s.bytes))
    }
}

// ------------------------------------------------------------------ C08 checksum policy

pub static C08: Prop = Prop {
    id: "C08",
    quick: 300_000,
    thorough: 4_000_000,
    run: c08,
    rule: "a case is a replay with some combination of damaged contents / damaged checksums in header and body, parsed under all three checksum policies, set through every builder method; outcome compared with the policy's definition applied to the reference decoder",
    need: &[("always: mismatch reported", 1000), ("on error: corrupt reported", 800), ("on error: plain error reported", 400), ("on error: damage tolerated", 800), ("never: damage tolerated", 800), ("never: plain error", 800), ("builder spelled two ways", 3000), ("wrong checksums stored", 3000), ("special checksums stored", 300)],
    assumptions: &["what decodes and what does not is decided by the harness' reference decoder"],
};
fn c08(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let s = hostile::some_synth(&mut r);
    let (mut h, mut c) = hostile::parts(&s);
    // 0 intact, 1 contents edited, 2 contents made undecodable (cut)
    let damage = |r: &mut Rng, d: &mut Vec<u8>, how: u64| match how {
        1 => hostile::edit(r, d),
        2 => {
            let n = r.usize(d.len());
            d.truncate(n)
        }
        3 => {
            // an undecodable count or version in front of otherwise fine data
            let v = *r.pick(&[-1i32, 25_001, i32::MAX, 10_001]);
            let at = if d.len() > 12 { *r.pick(&[0usize, 4, 8]) } else { 0 };
            if d.len() >= at + 4 {
                d[at..at + 4].copy_from_slice(&v.to_le_bytes())
            }
        }
        _ => {}
    };
    let (hd, cd) = (r.below(6), r.below(6));
    damage(&mut r, &mut h, hd);
    damage(&mut r, &mut c, cd);
    let mut d = seal(&h, &c).0;
    // stored checksums: right for the new contents, or not; a wrong one may be any value
    let right = [crc(&h), crc(&c)];
    for (k, at) in [4, 12 + h.len()].into_iter().enumerate() {
        let own = right[k];
        let x = match r.below(12) {
            0..=4 => own,
            5..=7 => own ^ (1 << r.below(32)),
            _ => {
                let n = if k == 0 { h.len() } else { c.len() } as u32;
                *r.pick(&[0, u32::MAX, !own, own.swap_bytes(), own.reverse_bits(), right[1 - k], n, r.clone().u32(), own.wrapping_add(1), 0x10340dfe, !0x10340dfeu32])
            }
        };
        if x != own {
            ctx.hit("wrong checksums stored");
            if x == 0 || x == u32::MAX {
                ctx.hit("special checksums stored")
            }
        }
        d[at..at + 4].copy_from_slice(&x.to_le_bytes());
    }
    let np = NETS[(i % 3) as usize];
    for chk in CRCS {
        let Some((got, want)) = both(ctx, &d, chk, np) else { return };
        ctx.eval(&d, hd != 0 || cd != 0);
        let label = match (&want.result, chk) {
            (Err(refdec::RefErr::Parse(ParseError::CrcMismatch(..))), _) => "always: mismatch reported",
            (Err(refdec::RefErr::Parse(ParseError::CorruptReplay(..))), _) => "on error: corrupt reported",
            (Err(refdec::RefErr::Parse(_)), CrcCheck::OnError) => "on error: plain error reported",
            (Err(refdec::RefErr::Parse(_)), CrcCheck::Never) => "never: plain error",
            (Ok(_), CrcCheck::OnError) => "on error: damage tolerated",
            (Ok(_), CrcCheck::Never) => "never: damage tolerated",
            _ => "other outcome",
        };
        ctx.hit(label);
        judge(ctx, &format!("policy {chk:?}"), &d, &got, &want);
        // the builder's other ways of asking for the same thing; the last call counts
        let (spelled, how) = spell(&mut r, &d, chk, np);
        let Some(again) = ctx.guard("parse", &d, || spelled.parse()) else { return };
        ctx.hit("builder spelled two ways");
        if format!("{:?}", brief(&again)) != format!("{:?}", brief(&got)) {
            ctx.bad("builder", format!("{how} is not the same as {chk:?} and {np:?}: {:?} / {:?}", brief(&again), brief(&got)), Some(&d))
        }
    }
}
fn brief(r: &Result<Replay, ParseError>) -> Result<String, String> {
    match r {
        Ok(x) => Ok(format!("{:016x}", crate::run::hash(format!("{x:?}").as_bytes()))),
        Err(e) => Err(format!("{e}")),
    }
}
/// full agreement between a result and the reference's, error contents included at byte level
pub fn judge(ctx: &mut Ctx, what: &str, d: &[u8], got: &Result<Replay, ParseError>, want: &RefOut) {
    judge_as(ctx, what, Some(d), got, want)
}
pub fn judge_as(ctx: &mut Ctx, what: &str, d: Option<&[u8]>, got: &Result<Replay, ParseError>, want: &RefOut) {
    match (got, &want.result) {
        (Ok(a), Ok(b)) => {
            if let Some(x) = replay_diff(a, b, true) {
                ctx.bad(format!("{what}: value"), format!("{what}: {x}"), d)
            }
        }
        (Err(a), Err(b)) => {
            if let Some(x) = err_diff(a, b) {
                ctx.bad(format!("{what}: error"), format!("{what}: {x}"), d)
            }
        }
        (Ok(_), Err(e)) => ctx.bad(format!("{what}: accepted"), format!("{what}: accepted, should fail with {e:.400?}"), d),
        (Err(e), Ok(_)) => ctx.bad(format!("{what}: refused"), format!("{what}: refused with {e:.400?}"), d),
    }
}

// ------------------------------------------------------------------ C20 truncation and trailing data

pub static C20: Prop = Prop {
    id: "C20",
    quick: 6_000,
    thorough: 60_000,
    run: c20,
    rule: "a case cuts a replay at many places (every byte for small ones) and appends bytes to it; each cut must be refused under the given options, each extension must give the same result",
    need: &[("cuts refused", 200_000), ("shortened sections refused", 100_000), ("extensions ignored", 2_000), ("extended by a section", 1_000), ("extended by a replay", 500), ("real replays cut", 100), ("sizes about a round number", 200)],
    assumptions: &[],
};
fn edge(r: &mut Rng, k: usize) -> i32 {
    *r.pick(&[k as i32 - 1, k as i32 + 1, 0, -1, i32::MAX, i32::MIN])
}
/// the same replay, the content padded so that its size or the file's is (nearly) a multiple of something round
fn rounded(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let Some((h, ct, _)) = hostile::layout(d) else { return d.to_vec() };
    let mut body = d[ct.0..ct.1].to_vec();
    let unit = *r.pick(&[64usize, 256, 512, 1000, 1024, 4096, 4096, 8192, 65_536]);
    let other = *r.pick(&[0, ct.0, 8]);
    let want = r.range(-2, 2).rem_euclid(unit as i64) as usize;
    let fill = *r.pick(&[0u8, 0, 255, 1]);
    let least = body.len() + r.usize(unit);
    while body.len() < least || (body.len() + other) % unit != want {
        body.push(fill)
    }
    seal(&d[h.0..h.1], &body).0
}
fn c20(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let good = corpus::good();
    let real = (i as usize) < good.len();
    let synth;
    let (d, name): (&[u8], &str) = if real {
        (&good[i as usize].1, &good[i as usize].0)
    } else {
        let d = hostile::some_synth(&mut r).bytes;
        synth = if i % 5 == 2 {
            ctx.hit("sizes about a round number");
            rounded(&mut r, &d)
        } else {
            d
        };
        (&synth, "synthetic")
    };
    let (c, n) = (CRCS[(i % 3) as usize], NETS[(i / 3 % 3) as usize]);
    let Some(full) = ctx.guard("parse", d, || opts(d, c, n)) else { return };
    let Ok(full) = full else {
        if real {
            return;
        }
        return ctx.bad("full", format!("complete file refused: {:?}", full.err()), Some(d));
    };
    let mut end = d.len();
    if real {
        // what the two declared sections cover; the rest is trailing data
        if let Some(x) = refdec::reference(d, CrcCheck::Never, NetworkParse::Never).content_range {
            end = x.1
        }
    }
    let cuts: Vec<usize> = if end < 6000 {
        (0..end).collect()
    } else {
        let mut v: Vec<usize> = (0..60).chain(end - 40..end).collect();
        for _ in 0..60 {
            v.push(r.usize(end))
        }
        if let Some((h, c, nw)) = hostile::layout(d) {
            for x in [h.0, h.1, c.0, c.1, nw.0, nw.1] {
                v.extend((x.saturating_sub(5)..x + 5).filter(|y| *y < end))
            }
        }
        v
    };
    if real {
        ctx.hit("real replays cut")
    }
    for k in cuts {
        let Some(g) = ctx.guard("parse", &d[..k], || opts(&d[..k], c, n)) else { return };
        match g {
            Err(_) => ctx.hit("cuts refused"),
            Ok(_) => return ctx.bad("cut", format!("{name}: {k} of {end} bytes accepted as a complete replay ({c:?}, {n:?})"), if real { None } else { Some(&d[..k]) }),
        }
    }
    ctx.eval(d, true);
    // sections that are declared (and checksummed) as they are, only too short to be complete
    if let Some((h, ct, _)) = if !real || i % 3 == 0 { hostile::layout(d) } else { None } {
        let (head, body) = (&d[h.0..h.1], &d[ct.0..ct.1]);
        let mut cuts: Vec<(usize, usize)> = vec![];
        let around = |n: usize, r: &mut Rng, v: &mut Vec<usize>| {
            if n < 3000 {
                v.extend(0..n)
            } else {
                v.extend(n - 60..n);
                for _ in 0..20 {
                    v.push(r.usize(n))
                }
            }
        };
        let mut v = vec![];
        around(body.len(), &mut r, &mut v);
        cuts.extend(v.iter().map(|k| (head.len(), *k)));
        for (hk, bk) in cuts {
            let e = seal(&head[..hk], &body[..bk]).0;
            // the reference decoder says whether what is left happens to be complete
            let Some((g, want)) = both(ctx, &e, c, NetworkParse::Never) else { continue };
            match (g, &want.result) {
                (Err(_), Err(_)) => ctx.hit("shortened sections refused"),
                (Ok(_), Err(_)) => return ctx.bad("shortened", format!("{name}: content section of {bk} of {} bytes, declared as such, accepted as complete ({c:?})", body.len()), if real { None } else { Some(&e) }),
                (Ok(_), Ok(_)) => ctx.hit("shortened sections that are complete"),
                (Err(x), Ok(_)) => return ctx.bad("shortened", format!("{name}: content section of {bk} of {} bytes is complete, yet refused: {x}", body.len()), if real { None } else { Some(&e) }),
            }
        }
    }
    for _ in 0..4 {
        let mut e = d[..end].to_vec();
        let k = r.usize(64);
        match r.below(7) {
            0 => e.extend(vec![0; k]),
            1 => e.extend_from_slice(&d[..k.min(end)]),
            2 => {
                // what looks like one more section, with whatever checksum
                let x = r.bytes(k);
                let n = if r.chance(1, 4) { edge(&mut r, k) } else { k as i32 };
                let sum = if r.chance(1, 2) { crate::refdec::crc(&x) } else { r.u32() };
                e.extend(n.to_le_bytes());
                e.extend(sum.to_le_bytes());
                e.extend(x);
                ctx.hit("extended by a section");
            }
            3 => {
                // one of the file's own sections again
                if let Some((h, c, nw)) = hostile::layout(d) {
                    let x = *r.pick(&[(h.0 - 8, h.1), (c.0 - 8, c.1), (nw.0 - 4, nw.1)]);
                    e.extend_from_slice(&d[x.0..x.1]);
                    if r.chance(1, 2) && x.1 > x.0 {
                        let at = end + r.usize(x.1 - x.0);
                        e[at] ^= 1 << r.usize(8)
                    }
                }
                ctx.hit("extended by a section");
            }
            4 => {
                // another replay, whole or not
                let x = if r.chance(1, 2) { d[..end].to_vec() } else { hostile::some_synth(&mut r).bytes };
                let n = if r.chance(1, 2) { x.len() } else { r.usize(x.len() + 1) };
                e.extend_from_slice(&x[..n]);
                ctx.hit("extended by a replay");
            }
            5 => {
                // lists and texts that go on
                for _ in 0..1 + r.usize(4) {
                    let n = r.usize(5) as i32;
                    e.extend(n.to_le_bytes());
                    for _ in 0..n {
                        let s = r.usize(6) as i32 + 1;
                        e.extend(s.to_le_bytes());
                        e.extend(vec![b'x'; s as usize - 1]);
                        e.push(0);
                    }
                }
            }
            _ => e.extend(r.bytes(k)),
        }
        let Some(g) = ctx.guard("parse", &e, || opts(&e, c, n)) else { return };
        match g {
            Ok(g) => match replay_diff(&g, &full, false) {
                None => ctx.hit("extensions ignored"),
                Some(x) => return ctx.bad("extension", format!("{name}: bytes after the content section changed the result: {x}"), if real { None } else { Some(&e) }),
            },
            Err(x) => return ctx.bad("extension", format!("{name}: bytes after the content section refused: {x}"), if real { None } else { Some(&e) }),
        }
    }
}

// ------------------------------------------------------------------ C21 limits

pub static C21: Prop = Prop {
    id: "C21",
    quick: 80_000,
    thorough: 500_000,
    run: c21,
    rule: "a case puts one size at, just below or just above a documented limit in an otherwise complete file and checks acceptance or refusal",
    need: &[("refusals with little allocated", 10_000), ("list at limit accepted", 40), ("list over limit refused", 60), ("other lists at length too", 300), ("text at limit accepted", 20), ("names without a limit accepted", 300), ("text over limit refused", 40), ("network text at limit accepted", 20), ("network text over limit refused", 40), ("text over limit refused in position 10", 20), ("network text over limit refused in place 0", 20), ("network text over limit refused in place 1", 20), ("network text over limit refused in place 5", 20), ("network text over limit refused in place 9", 20), ("frame count at limit accepted", 15), ("frame count over limit refused", 30)],
    assumptions: &[],
};
/// entries of the array below `n` others
fn inner(d: &[(String, HeaderProp)], n: usize) -> usize {
    match (d.first().map(|x| &x.1), n) {
        (Some(HeaderProp::Array(a)), 0) => a.len(),
        (Some(HeaderProp::Array(a)), _) if a.len() == 1 => inner(&a[0], n - 1),
        (Some(HeaderProp::Struct { fields, .. }), 1..) => inner(fields, n - 1),
        _ if d.is_empty() => 0,
        _ => usize::MAX,
    }
}
/// some number of 32 bits that is this far from zero at least: a power of two or near it, what overflows
/// when multiplied, or any
fn beyond(r: &mut Rng, least: i64) -> i64 {
    let sign = if r.chance(1, 2) { -1 } else { 1 };
    let x = match r.below(4) {
        0 | 1 => (1i64 << (10 + r.below(22))) + r.below(5) as i64 - 2,
        2 => (1i64 << 32) / (1 + r.below(40) as i64) + r.below(3) as i64 - 1,
        _ => (r.u32() >> r.below(20)) as i64,
    };
    (sign * x.max(least)).clamp(i32::MIN as i64, i32::MAX as i64)
}
/// what is refused for its size is refused before room is made for it
fn modest(ctx: &mut Ctx, what: &str, g: &Result<Replay, ParseError>, u: &crate::alloc::Usage) {
    if g.is_err() {
        ctx.max("peak heap bytes of a refusal", u.peak as u64);
        if u.peak > REFUSAL {
            ctx.bad("allocated first", format!("{what}: refused after {} KiB of heap had been in use", u.peak >> 10), None)
        } else {
            ctx.hit("refusals with little allocated")
        }
    }
}
const REFUSAL: usize = 1 << 20;
fn c21(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    match i % 4 {
        0 => {
            // lists: 25,000 entries are fine, more are not even when the entries are there
            let n: i64 = *r.pick(&[24_999, 25_000, 25_001, 25_002, 30_000, 65_536, -1, i32::MIN as i64, i32::MAX as i64, 0]);
            let n = if n == 0 { beyond(&mut r, 25_001) } else { n };
            let which = r.below(11) as usize;
            // all the other lists may be as long as they like
            let all = if r.chance(1, 40) { 24_000 + r.usize(1_001) } else { 0 };
            let put = n.clamp(0, 70_000) as usize;
            let mut h = ByteW::default();
            h.i32(868);
            h.i32(17);
            h.str("G");
            // an array of the header may lie within other arrays and structures
            let outer: Vec<bool> = (0..r.usize(4)).map(|_| r.chance(1, 2)).collect();
            if which == 10 {
                for a in &outer {
                    h.str("Outer");
                    h.str(if *a { "ArrayProperty" } else { "StructProperty" });
                    h.raw(&[0; 8]);
                    if *a {
                        h.i32(1)
                    } else {
                        h.str("S")
                    }
                }
                h.str("Goals");
                h.str("ArrayProperty");
                h.i32(0);
                h.i32(0);
                h.i32(n as i32);
                for _ in 0..put {
                    h.str("None");
                }
                for _ in &outer {
                    h.str("None");
                }
            }
            h.str("None");
            let mut c = ByteW::default();
            let entry = |c: &mut ByteW, w: usize| match w {
                0 | 5 | 6 | 7 => c.i32(0),
                1 => c.raw(&[0; 12]),
                3 => c.raw(&[0; 12]),
                4 => c.raw(&[0; 8]),
                8 => c.raw(&[0; 8]),
                9 => c.raw(&[0; 16]),
                _ => {}
            };
            // 0 levels 1 keyframes 2 (network) 3 debug 4 ticks 5 packages 6 objects 7 names 8 classes 9 cache
            for w in 0..10 {
                if w == which && w != 2 {
                    c.i32(n as i32);
                    for _ in 0..put {
                        entry(&mut c, w)
                    }
                } else if w == 2 && which == 2 {
                    // the network size is no list: only bounded by the data
                    c.i32(put as i32);
                    c.raw(&vec![0; put]);
                } else if w != 2 && all > 0 {
                    ctx.hit("other lists at length too");
                    c.i32(all as i32);
                    for _ in 0..all {
                        entry(&mut c, w)
                    }
                } else {
                    c.i32(0)
                }
            }
            if which == 9 && r.chance(1, 2) {
                // nested: properties of one class
                c.0.truncate(c.0.len() - if put > 0 { put * 16 } else { 0 } - 4);
                c.i32(1);
                c.raw(&[0; 12]);
                c.i32(n as i32);
                c.raw(&vec![0u8; put * 8]);
            }
            let d = seal(&h.0, &c.0).0;
            let chk = *r.pick(&CRCS);
            let Some((g, used)) = ctx.guard("parse", &d, || crate::alloc::measure(|| opts(&d, chk, NetworkParse::Never))) else { return };
            ctx.eval(&d, true);
            if all == 0 {
                modest(ctx, &format!("list {which} of {n} entries"), &g, &used);
            }
            let fine = (0..=25_000).contains(&n) || which == 2;
            match (fine, g) {
                (true, Ok(g)) => {
                    ctx.hit("list at limit accepted");
                    let outer = if which == 10 { outer } else { vec![] };
                    let got = [g.levels.len(), g.keyframes.len(), put, g.debug_info.len(), g.tick_marks.len(), g.packages.len(), g.objects.len(), g.names.len(), g.class_indices.len(), g.net_cache.len(),
                        inner(&g.properties, outer.len())][which];
                    let nested = which == 9 && g.net_cache.len() == 1 && g.net_cache[0].properties.len() == put;
                    if got != put && !nested {
                        ctx.bad("list length", format!("list {which}: {put} entries written, {got} read"), None)
                    }
                }
                (true, Err(e)) => ctx.bad("list limit", format!("list {which} of {n} entries refused: {e}"), None),
                (false, Ok(_)) => ctx.bad("list limit", format!("list {which} of {n} entries accepted"), None),
                (false, Err(e)) => {
                    let mut x = &e;
                    while let ParseError::ParseError(_, _, y) | ParseError::CorruptReplay(_, y) = x {
                        x = y
                    }
                    if matches!(x, ParseError::ListTooLarge(_)) {
                        ctx.hit("list over limit refused")
                    } else {
                        ctx.bad("list limit error", format!("list {which} of {n} entries: {e:?}"), None)
                    }
                }
            }
        }
        1 if r.chance(1, 6) => {
            // names that have to be UTF-8 know no such limit
            let n = *r.pick(&[9_998usize, 9_999, 10_000, 10_001, 10_002, 16_384, 20_001, 25_001, 32_768, 65_536, 70_000, 200_000]);
            let mut name = "k".repeat(n - 2);
            name.push_str(*r.pick(&["kk", "é", "\0k"]));
            let at = r.usize(5);
            let put = |h: &mut ByteW, w: usize| h.str(if at == w { &name } else { "x" });
            let mut h = ByteW::default();
            h.i32(868);
            h.i32(17);
            h.str("G");
            put(&mut h, 0);
            h.str("StructProperty");
            h.raw(&[0; 8]);
            put(&mut h, 1);
            put(&mut h, 2);
            h.str("IntProperty");
            h.raw(&[0; 12]);
            h.str("None");
            h.str("B");
            h.str("ByteProperty");
            h.raw(&[0; 8]);
            put(&mut h, 3);
            put(&mut h, 4);
            h.str("None");
            let d = seal(&h.0, &[0; 40]).0;
            let (chk, net) = (*r.pick(&CRCS), *r.pick(&NETS));
            let Some(g) = ctx.guard("parse", &d, || opts(&d, chk, net)) else { return };
            ctx.eval(&d, true);
            match g {
                Ok(g) => {
                    let is = |w: usize| if at == w { name.clone() } else { "x".to_string() };
                    let want = vec![
                        (is(0), HeaderProp::Struct { name: is(1), fields: vec![(is(2), HeaderProp::Int(0))] }),
                        ("B".to_string(), HeaderProp::Byte { kind: is(3), value: Some(is(4)) }),
                    ];
                    if g.properties != want {
                        ctx.bad("long names", format!("a name of {n} bytes in place {at} read as another"), None)
                    } else {
                        ctx.hit("names without a limit accepted");
                        ctx.hit(format!("names without a limit accepted in place {at}"));
                    }
                }
                Err(e) => ctx.bad("long names", format!("a name of {n} bytes in place {at} refused: {e:.200}"), None),
            }
        }
        1 => {
            let n: i64 = *r.pick(&[9_999, 10_000, 10_001, 10_002, 20_000, -9_999, -10_000, -10_001, -20_000, i32::MIN as i64, i32::MAX as i64, i32::MIN as i64 + 1, 0, 0]);
            let n = if n == 0 { beyond(&mut r, 10_001) } else { n };
            let bytes = if n < 0 { (-n * 2).min(60_000) } else { n.min(60_000) } as usize;
            let raw = vec![b'a'; bytes];
            let want = if n > 0 { w1252(&raw[..bytes - 1]) } else { utf16(&raw[..bytes - 2]) };
            // everywhere where it fits, else in one place at a time
            let only = if n.abs() <= 10_000 { None } else { Some(r.usize(TEXT_AT)) };
            let (_, check) = text_everywhere(n as i32, &raw, &want);
            let d = text_file(n as i32, &raw, only);
            let (chk, net) = (*r.pick(&[CrcCheck::Never, CrcCheck::Always, CrcCheck::OnError]), *r.pick(&[NetworkParse::Never, NetworkParse::IgnoreOnError]));
            let Some((g, used)) = ctx.guard("parse", &d, || crate::alloc::measure(|| opts(&d, chk, net))) else { return };
            ctx.eval(&d, true);
            modest(ctx, &format!("text of length {n}"), &g, &used);
            match (n.abs() <= 10_000, g) {
                (true, Ok(g)) => match check(&g) {
                    None => ctx.hit("text at limit accepted"),
                    Some(x) => ctx.bad("text limit", x, None),
                },
                (true, Err(e)) => ctx.bad("text limit", format!("text of length {n} refused: {e}"), None),
                (false, Ok(_)) => ctx.bad("text limit", format!("text of length {n} accepted in position {only:?}"), None),
                (false, Err(e)) => {
                    let mut x = &e;
                    while let ParseError::ParseError(_, _, y) = x {
                        x = y
                    }
                    if *x == ParseError::TextTooLarge(n as i32) {
                        ctx.hit("text over limit refused");
                        ctx.hit(format!("text over limit refused in position {}", only.unwrap()));
                    } else {
                        ctx.bad("text limit error", format!("text of length {n} in position {only:?}: {e:?}"), None)
                    }
                }
            }
        }
        2 => {
            let n: i64 = *r.pick(&[1023, 1024, 1025, 1026, 2048, 4000, -511, -512, -513, -514, -1024, i32::MIN as i64, i32::MAX as i64, -(1 << 30), 0, 0]);
            let n = if n == 0 { beyond(&mut r, 1_025) } else { n };
            let bytes = if n < 0 { -n * 2 } else { n };
            let put = bytes.min(9000) as usize;
            let what = r.usize(10);
            let (name, ver) = [
                ("Engine.GameReplicationInfo:ServerName", (868, 32, 10)),
                ("TAGame.PRI_TA:ClientLoadoutOnline", (868, 32, 10)),
                ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", (868, 32, 10)),
                ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", (868, 32, 10)),
                ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", (868, 32, 10)),
                ("ProjectX.GRI_X:Reservations", (868, 32, 10)),
                ("Engine.PlayerReplicationInfo:UniqueId", (868, 32, 10)),
                ("TAGame.PRI_TA:PartyLeader", (868, 22, 7)),
                ("ProjectX.GRI_X:GameServerID", (868, 32, 10)),
                ("TAGame.StatsBoard_TA:StatTitles", (868, 32, 10)),
            ][what];
            let name = if what == 9 { *r.pick(&crate::model::tables().by_tag[&Tag::RepStatTitle]) } else { name };
            let (mut m, mut s, _) = one_attr(ver, name, (i / 4 % 70) as i32, false);
            let title = m.obj("TAGame.ProductAttribute_TitleID_TA");
            if what == 8 {
                m.props.push(("BuildVersion".into(), HeaderProp::Str("230101.1.1".into())));
            }
            let b = &mut s.b;
            let text = |b: &mut BitW, here: bool| {
                if here {
                    b.i32(n as i32);
                    b.bytes(&vec![b'a'; put]);
                } else {
                    b.i32(2);
                    b.bytes(b"x\0");
                }
            };
            match what {
                1 => {
                    b.u8(1);
                    b.u8(1);
                    b.bit(false);
                    b.i32(title);
                    text(b, true);
                }
                2..=4 => {
                    text(b, what == 2);
                    b.u64(5);
                    text(b, what == 3);
                    text(b, what == 4);
                    b.bit(true);
                }
                5 => {
                    b.bits(3, 3);
                    b.u8(1);
                    b.u64(77);
                    b.u8(0);
                    text(b, true);
                    b.bits(0, 8);
                }
                6 | 7 => {
                    b.u8(11);
                    text(b, true);
                    b.u8(0);
                }
                9 => {
                    b.bit(true);
                    text(b, true);
                    b.bit(true);
                    b.u64(9);
                }
                _ => text(b, true),
            }
            s.end_update();
            s.end_frame();
            s.b.u64(0);
            m.net = s.b.b.clone();
            let d = m.int("NumFrames", 1).bytes();
            let Some((g, used)) = ctx.guard("parse", &d, || crate::alloc::measure(|| opts(&d, CrcCheck::Never, NetworkParse::Always))) else { return };
            ctx.eval(&d, true);
            modest(ctx, &format!("network text of length {n}"), &g, &used);
            match (bytes <= 1024, g) {
                (true, Ok(_)) => ctx.hit("network text at limit accepted"),
                (true, Err(e)) => ctx.bad("network text limit", format!("network text in {name} with length field {n} refused: {e}"), Some(&d)),
                (false, Ok(_)) => ctx.bad("network text limit", format!("network text in {name} with length field {n} accepted"), Some(&d)),
                (false, Err(e)) => match net_error(&e) {
                    Some(NetworkError::FrameError(FrameError::AttributeError { error: AttributeError::TooBigString(x), .. }, _)) if *x == n as i32 => {
                        ctx.hit("network text over limit refused");
                        ctx.hit(format!("network text over limit refused in place {what}"));
                    }
                    // a text inside a product list is reported as a broken product list
                    Some(NetworkError::FrameError(FrameError::AttributeError { .. }, _)) if what == 1 => {
                        ctx.hit("network text over limit refused");
                        ctx.hit("network text over limit refused in place 1");
                    }
                    _ => ctx.bad("network text limit error", format!("network text in {name} with length field {n}: {e:?}"), Some(&d)),
                },
            }
        }
        _ => {
            // one frame takes at least a byte: NumFrames beyond the size of the network data is refused
            let k = r.usize(40);
            let mut b = BitW::default();
            b.u64(0);
            let mut net = b.b;
            net.resize(k, 0);
            let n: i64 = *r.pick(&[k as i64, k as i64 + 1, k as i64 - 1, k as i64 * 8, k as i64 * 9 + 9, -1, i32::MIN as i64, i32::MAX as i64, 0, 1 << 20]);
            let mut m = Mini::default();
            m.net = net;
            let d = m.int("NumFrames", n as i32).bytes();
            let Some((g, used)) = ctx.guard("parse", &d, || crate::alloc::measure(|| opts(&d, CrcCheck::Never, NetworkParse::Always))) else { return };
            ctx.eval(&d, true);
            modest(ctx, &format!("{n} frames declared"), &g, &used);
            match (n >= 0 && n as usize <= k, g) {
                (true, Ok(g)) => {
                    ctx.hit("frame count at limit accepted");
                    if g.network_frames.map(|f| f.frames.len()) != Some(0) {
                        ctx.bad("frame count", "frames out of an all-zero stream", Some(&d))
                    }
                }
                (true, Err(e)) => {
                    // fewer than 8 bytes hold no frame header
                    let short = k > 0 && k < 8 && n > 0 && matches!(net_error(&e), Some(NetworkError::FrameError(FrameError::NotEnoughDataFor(_), _)));
                    if !short {
                        ctx.bad("frame count limit", format!("NumFrames {n} with {k} bytes of network data refused: {e}"), Some(&d))
                    }
                }
                (false, Ok(_)) => ctx.bad("frame count limit", format!("NumFrames {n} with {k} bytes of network data accepted"), Some(&d)),
                (false, Err(e)) => match net_error(&e) {
                    Some(NetworkError::TooManyFrames(x)) if *x == n as i32 => ctx.hit("frame count over limit refused"),
                    _ => ctx.bad("frame count limit error", format!("NumFrames {n}: {e:?}"), Some(&d)),
                },
            }
        }
    }
}
