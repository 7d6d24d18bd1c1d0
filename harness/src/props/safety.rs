//! Whatever the bytes are: an answer, within bounds, without touching memory it should not.
use super::*;
use crate::alloc::measure;
use crate::refdec;
use crate::corpus;
use crate::gen::{self, seal, ByteW, NetOpts};
use crate::hostile::{self, KINDS};
use crate::mini::{one_attr, Mini, Stream};
use crate::rng::Rng;
use crate::run::catch;
use serde_json::json;

/// a String that is not UTF-8 is undefined behaviour no sanitizer sees
fn valid(s: String) -> usize {
    check_utf8(s.as_bytes())
}
fn check_utf8(b: &[u8]) -> usize {
    if let Err(e) = std::str::from_utf8(std::hint::black_box(b)) {
        panic!("{INVALID}: {e}");
    }
    b.len()
}
/// every text of the header and the body
fn texts(r: &Replay, f: &mut dyn FnMut(&str)) {
    fn dict(d: &[(String, HeaderProp)], f: &mut dyn FnMut(&str)) {
        for (k, p) in d {
            f(k);
            match p {
                HeaderProp::Array(a) => a.iter().for_each(|d| dict(d, f)),
                HeaderProp::Struct { name, fields } => {
                    f(name);
                    dict(fields, f)
                }
                HeaderProp::Byte { kind, value } => {
                    f(kind);
                    if let Some(v) = value {
                        f(v)
                    }
                }
                HeaderProp::Name(x) | HeaderProp::Str(x) => f(x),
                _ => {}
            }
        }
    }
    f(&r.game_type);
    dict(&r.properties, f);
    for x in r.levels.iter().chain(&r.packages).chain(&r.objects).chain(&r.names) {
        f(x)
    }
    for x in &r.debug_info {
        f(&x.user);
        f(&x.text);
    }
    r.tick_marks.iter().for_each(|x| f(&x.description));
    r.class_indices.iter().for_each(|x| f(&x.class));
}
pub const INVALID: &str = "text handed out by the parser is not valid UTF-8";
/// everything a caller can do with a result
pub fn exercise(res: &Result<Replay, ParseError>, json: bool) -> usize {
    use std::error::Error;
    match res {
        Ok(r) => {
            let mut n = 0;
            texts(r, &mut |x| n += check_utf8(x.as_bytes()));
            for (_, p) in &r.properties {
                n += p.as_array().map(|x| x.len()).unwrap_or(0) + p.as_string().map(|x| x.len()).unwrap_or(0);
                n += (p.as_bool().is_some() || p.as_float().is_some() || p.as_u64().is_some() || p.as_i32().is_some() || p.is_byte()) as usize;
            }
            if json {
                let c = r.clone();
                n += valid(format!("{c:?}"));
                n += serde_json::to_string(&c).map(valid).unwrap_or(0);
                n += (c == *r) as usize;
            }
            n
        }
        Err(e) => {
            let mut n = valid(format!("{e}")) + valid(format!("{e:?}")) + valid(format!("{e:#?}"));
            let mut s: Option<&dyn Error> = e.source();
            let mut k = 0;
            while let Some(x) = s {
                n += valid(format!("{x}"));
                s = x.source();
                k += 1;
                if k > 16 {
                    panic!("endless chain of error sources");
                }
            }
            n
        }
    }
}
pub fn variants(d: &[u8]) -> Vec<ParserBuilder<'_>> {
    let mut v = vec![ParserBuilder::new(d)];
    for c in CRCS {
        for n in NETS {
            v.push(ParserBuilder::new(d).with_crc_check(c).with_network_parse(n));
        }
    }
    v.push(ParserBuilder::new(d).always_check_crc().must_parse_network_data());
    v.push(ParserBuilder::new(d).on_error_check_crc().ignore_network_data_on_error());
    v.push(ParserBuilder::new(d).never_check_crc().never_parse_network_data());
    v
}

// ------------------------------------------------------------------ C01

pub static C01: Prop = Prop {
    id: "C01",
    quick: 50_000,
    thorough: 1_200_000,
    run: c01,
    rule: "a case is one file (random, edited, truncated, spliced, deeply nested, or real) parsed under all nine option combinations on a 2 MiB stack, with overflow checks and debug assertions on; every result is printed, cloned, compared and serialised. A panic, abort, stack overflow, or 60 s of CPU on one input is a violation",
    need: &[
        ("parses", 100_000), ("ok", 5_000), ("refused", 20_000), ("network errors", 1_000),
        ("kind nested header", 500), ("kind odd cache", 500), ("kind real network edited", 300), ("kind network noise", 500), ("kind truncated", 500),
        ("kind odd names", 500), ("kind stray properties", 500), ("kind odd keys", 500), ("kind extreme attribute values", 500), ("files beyond 2 GiB parsed", 30), ("very much of one thing", 60), ("long runs of one kind of property", 48),
    ],
    assumptions: &["totality is observed on the inputs generated, not proved for all"],
};
fn c01(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let kind = (i % KINDS.len() as u64) as usize;
    let d = hostile::generate(&mut r, kind);
    ctx.hit(format!("kind {}", KINDS[kind]));
    total(ctx, &d);
    if i == 0 {
        beyond(ctx)
    }
    if i >= 1 && i <= (FAMILIES.len() * 2) as u64 {
        // very much of one thing, in whole and cut short
        let k = (i as usize - 1) % FAMILIES.len();
        let d = family(k, if k == 4 { 1_000 } else { 22_000 }, &mut r);
        total(ctx, if i as usize > FAMILIES.len() { &d[..d.len() - 1 - r.usize(30)] } else { &d });
        ctx.hit("very much of one thing");
    }
    if i > 100 && i <= 100 + 4 * RUNS as u64 {
        let (k, n) = ((i - 101) as usize % RUNS, [3_000, 20_000, 60_000, 120_000][(i - 101) as usize / RUNS]);
        let mut d = run_of(k, n);
        total(ctx, &d);
        let cut = 1 + r.usize(200);
        d.truncate(d.len().saturating_sub(cut));
        total(ctx, &d);
        ctx.hit("long runs of one kind of property");
    }
    ctx.sample(|| json!({"kind": KINDS[kind], "bytes": d.len()}));
}
const RUNS: usize = 12;
/// a header of n properties of one kind in a row, at the top or in an array or a structure
fn run_of(k: usize, n: usize) -> Vec<u8> {
    let mut h = ByteW::default();
    h.i32(868);
    h.i32(17);
    h.str("TAGame.Replay_Soccar_TA");
    let start = |h: &mut ByteW, name: &str, kind: &str| {
        h.str(name);
        h.str(kind);
        h.raw(&[0; 8]);
    };
    let at = n % 3;
    match at {
        1 => {
            start(&mut h, "A", "ArrayProperty");
            h.i32(1)
        }
        2 => {
            start(&mut h, "S", "StructProperty");
            h.str("T")
        }
        _ => {}
    }
    for _ in 0..n {
        match k {
            0 | 1 => {
                start(&mut h, "Platform", "ByteProperty");
                h.str(if k == 0 { "None" } else { "OnlinePlatform" });
                if k == 0 {
                    h.raw(&[0]);
                } else {
                    h.str("OnlinePlatform_Steam")
                }
            }
            2 => {
                start(&mut h, "b", "BoolProperty");
                h.raw(&[1])
            }
            3 => {
                start(&mut h, "i", "IntProperty");
                h.i32(7)
            }
            4 => {
                start(&mut h, "f", "FloatProperty");
                h.i32(7)
            }
            5..=7 => {
                start(&mut h, "s", ["StrProperty", "NameProperty", "StrProperty"][k - 5]);
                if k == 7 {
                    h.i32(0)
                } else {
                    h.str("x")
                }
            }
            8 => {
                start(&mut h, "q", "QWordProperty");
                h.raw(&[1; 8])
            }
            9 => {
                start(&mut h, "a", "ArrayProperty");
                h.i32(0)
            }
            10 => {
                start(&mut h, "t", "StructProperty");
                h.str("T");
                h.str("None")
            }
            _ => {
                start(&mut h, "a", "ArrayProperty");
                h.i32(2);
                h.str("None");
                h.str("None")
            }
        }
    }
    h.str("None");
    if at > 0 {
        h.str("None")
    }
    seal(&h.0, &[0; 40]).0
}
fn total(ctx: &mut Ctx, d: &[u8]) {
    let small = d.len() < 20_000;
    let mut ok = false;
    for (k, b) in variants(d).into_iter().enumerate() {
        if !small && k > 9 {
            break;
        }
        let Some(res) = ctx.guard("parse", d, || b.parse()) else { return };
        ctx.hit("parses");
        match &res {
            Ok(_) => {
                ctx.hit("ok");
                ok = true;
            }
            Err(ParseError::NetworkError(_)) => {
                ctx.hit("refused");
                ctx.hit("network errors")
            }
            Err(_) => ctx.hit("refused"),
        }
        if ctx.guard("use of the result", d, || exercise(&res, small && k < 10)).is_none() {
            return;
        }
        if ctx.guard("drop", d, || drop(res)).is_none() {
            return;
        }
    }
    let c = ctx.guard("calc_crc", d, || boxcars::crc::calc_crc(d));
    if c.is_none() {
        return;
    }
    ctx.eval(d, true);
    ctx.hit(if ok { "inputs accepted by some option" } else { "inputs refused by all" });
}

/// Files of more than 2 GiB, where 32-bit offsets and amounts run out. The buffer is all zeros but for
/// a few edits, so hardly any of it is ever touched; it never goes into a report.
pub fn beyond(ctx: &mut Ctx) {
    if cfg!(vh_asan) || cfg!(miri) {
        return;
    }
    const LEN: usize = 2_200_000_000;
    let m = Mini::default().int("NumFrames", 1);
    let h = m.header();
    let c0 = 8 + h.len() + 8;
    let mut d = vec![0u8; LEN];
    d[..4].copy_from_slice(&(h.len() as i32).to_le_bytes());
    d[4..8].copy_from_slice(&boxcars::crc::calc_crc(&h).to_le_bytes());
    d[8..8 + h.len()].copy_from_slice(&h);
    // the body: levels, keyframes, network data, debug info, tick marks, packages, objects, names, ...
    let net = c0 + 8;
    let after = net + 4 + i32::MAX as usize;
    let max = i32::MAX;
    let one = after - (1 << 20);
    let cases: Vec<(&str, Vec<(usize, i32)>)> = vec![
        ("network data up to 2 GiB", vec![(net, max)]),
        ("2 GiB of network data, the content declared as long", vec![(c0 - 8, max), (net, max)]),
        ("negative size of network data", vec![(net, -1)]),
        ("content of negative size", vec![(c0 - 8, -1)]),
        ("header of negative size", vec![(0, i32::MIN)]),
        ("too many levels", vec![(c0, 25_001)]),
        ("a list too long beyond 2 GiB", vec![(net, max), (after, 25_001)]),
        ("a list of negative size beyond 2 GiB", vec![(net, max), (after + 8, -1)]),
        ("a text too long beyond 2 GiB", vec![(net, max), (after + 8, 1), (after + 12, 10_001)]),
        ("a text with nothing left to read beyond 2 GiB", vec![(net, max), (after + 12, 1), (after + 16, 4), (after + 20, -1)]),
        ("a text across the 2 GiB mark", vec![(net, max - 200), (after - 200 + 12, 1), (after - 200 + 16, 400)]),
        ("a list too long just before 2 GiB", vec![(net, max - (1 << 20)), (one, 25_001)]),
        ("many empty texts across the 2 GiB mark", vec![(net, max - 4000), (after - 4000 + 12, 24_000)]),
    ];
    for (what, edits) in &cases {
        for (at, v) in edits {
            d[*at..at + 4].copy_from_slice(&v.to_le_bytes());
        }
        for (chk, np) in [(CrcCheck::Never, NetworkParse::Never), (CrcCheck::OnError, NetworkParse::Always), (CrcCheck::Never, NetworkParse::IgnoreOnError)] {
            let got = catch(|| {
                let x = opts(&d, chk, np);
                exercise(&x, false);
                x
            });
            let want = refdec::reference(&d, chk, np);
            ctx.hit("files beyond 2 GiB parsed");
            ctx.evaluations += 1;
            match got {
                Ok(got) => {
                    ctx.hit(if got.is_ok() { "files beyond 2 GiB accepted" } else { "files beyond 2 GiB refused" });
                    super::bytes::judge_as(ctx, &format!("a file of {LEN} bytes, {what} ({chk:?}, {np:?})"), None, &got, &want)
                }
                Err(p) => ctx.bad(format!("panic:beyond 2 GiB:{what}"), format!("a file of {LEN} bytes, {what} ({chk:?}, {np:?}): panic: {p}"), None),
            }
        }
        for (at, _) in edits {
            d[*at..at + 4].copy_from_slice(&[0; 4]);
        }
    }
}

// ------------------------------------------------------------------ C02

pub static C02: Prop = Prop {
    id: "C02",
    quick: 250_000,
    thorough: 2_500_000,
    run: c02,
    rule: "a case is one file parsed while a counting allocator watches. Peak heap must stay under 72 MiB + 1200 bytes per input byte, total allocated under 120 MiB + 4000 per byte (families: 24 MiB + 512, repeated values: 8 MiB + 200 and 2000 per update); what is left after the result is dropped under 32 KiB (tables built on first use are built before); and for families of well-formed files that grow in one dimension, allocations must grow no more than in proportion and CPU time must not grow quadratically",
    need: &[("hostile inputs measured", 1500), ("families measured", 40), ("failing families measured", 30), ("repeated values measured", 130), ("declared far more than present", 300)],
    assumptions: &["heap use is what passes through the global allocator", "CPU growth is judged by thread CPU time with a factor 2.5 and 0.25 s to spare"],
};
const PEAK_BASE: usize = 72 << 20;
const PEAK_PER: usize = 1200;
const TOTAL_BASE: u64 = 120 << 20;
const TOTAL_PER: u64 = 4000;

fn thread_cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

pub const FAMILIES: [&str; 37] = [
    "empty frames", "boolean updates", "deletes", "spawns", "product lists", "string attributes", "unique ids", "rigid bodies",
    "known objects", "unknown objects", "duplicate objects", "caches", "properties of one cache", "header keys", "header array",
    "header arrays in arrays", "levels", "keyframes", "debug info", "tick marks", "class indices", "long texts", "actors", "level objects with an attribute", "repeated caches",
    "one frame of many updates, many of few", "one frame of many spawns, many of few", "one frame of many deletes, many of few", "one long product list, many short", "many actors, many respawned",
    "classes with a large stream id", "level objects of a class with large stream ids", "large stream ids and large objects lists",
    "a frame of many updates, then many deletes", "a frame of many deletes, then many updates", "a frame of many spawns, then their deletes, then their spawns",
    "a frame of many actors created, changed and deleted",
];
/// a well-formed file of about `n` units along one dimension; None where the parse need not succeed
pub fn family(k: usize, n: usize, r: &mut Rng) -> Vec<u8> {
    let mut m = Mini::default();
    let boolean = "TAGame.Vehicle_TA:bReplicatedHandbrake";
    match k {
        0 => {
            let mut s = Stream::new(&m, 1023);
            for _ in 0..n {
                s.frame(1.0, 1.0);
                s.end_frame();
            }
            s.b.u64(0);
            m.net = s.b.b;
            m.int("NumFrames", n as i32).bytes()
        }
        1 | 4..=7 => {
            let (name, per): (&str, usize) = match k {
                1 => (boolean, 8),
                4 => ("TAGame.PRI_TA:ClientLoadoutOnline", 1),
                5 => ("Engine.GameReplicationInfo:ServerName", 1),
                6 => ("Engine.PlayerReplicationInfo:UniqueId", 1),
                _ => ("TAGame.RBActor_TA:ReplicatedRBState", 1),
            };
            let (mut m, mut s, _) = one_attr((868, 32, 10), name, 0, false);
            let mut one = |s: &mut Stream| match k {
                1 => s.b.bit(true),
                4 => {
                    s.b.bits(255, 8);
                    for j in 0..255 {
                        s.b.bits((j % 2) as u64, 8);
                        if j % 2 == 1 {
                            s.b.bit(false);
                            s.b.i32(100 + r.usize(3) as i32);
                        }
                    }
                }
                5 => {
                    s.b.i32(200);
                    s.b.bytes(&[b'a'; 200]);
                }
                6 => {
                    s.b.bits(1, 8);
                    s.b.u64(7);
                    s.b.bits(0, 8);
                }
                _ => {
                    s.b.bit(true);
                    gen::enc_vec_raw(&mut s.b, 10, 0, [2, 2, 2]);
                    s.b.bits(0, 2);
                    for _ in 0..3 {
                        s.b.bits(1000, 18)
                    }
                }
            };
            one(&mut s);
            for _ in 1..n * per {
                s.b.bit(true);
                one(&mut s)
            }
            s.end_update();
            s.end_frame();
            s.b.u64(0);
            m.net = s.b.b;
            m.int("NumFrames", 1).bytes()
        }
        2 | 3 | 22 => {
            let o = m.obj("TAGame.Default__PRI_TA");
            let mut s = Stream::new(&m, if k == 22 { 1 << 20 } else { 2 });
            s.frame(1.0, 1.0);
            for j in 0..n {
                match k {
                    2 => s.delete(1),
                    3 => s.spawn(1, o),
                    _ => {
                        s.spawn(j as i32, o);
                        s.update(j as i32);
                        s.end_update();
                    }
                }
            }
            s.end_frame();
            s.b.u64(0);
            let mc = if k == 22 { 1 << 20 } else { 2 };
            m.net = s.b.b;
            m.int("MaxChannels", mc).int("NumFrames", 1).bytes()
        }
        8 | 9 | 10 | 23 => {
            m.net = vec![0; 16];
            if k == 23 {
                let c = m.obj("TAGame.CrowdActor_TA");
                let a = m.obj(boolean);
                m.caches.push((c, vec![(a, 1)]));
            }
            for j in 0..n {
                m.objects.push(match k {
                    8 | 23 => format!("TheWorld:PersistentLevel.CrowdActor_TA_{j}"),
                    9 => format!("Unknown.Thing_{j}"),
                    _ => "TAGame.Default__PRI_TA".into(),
                });
            }
            m.int("NumFrames", 1).bytes()
        }
        11 | 24 => {
            m.net = vec![0; 16];
            m.objects = vec!["TAGame.Default__PRI_TA".into(), boolean.into()];
            m.caches = (0..n).map(|j| (if k == 24 { 0 } else { j as i32 }, vec![(1, if k == 24 { 3 } else { j as i32 })])).collect();
            m.int("NumFrames", 1).bytes()
        }
        12 => {
            m.net = vec![0; 16];
            m.objects = vec!["TAGame.Default__PRI_TA".into(), boolean.into()];
            m.caches = vec![(0, (0..n).map(|j| (1, j as i32)).collect())];
            m.int("NumFrames", 1).bytes()
        }
        13 => {
            m.props = (0..n).map(|j| (format!("k{j}"), HeaderProp::Int(j as i32))).collect();
            m.bytes()
        }
        14 => {
            m.props = vec![("a".into(), HeaderProp::Array((0..n).map(|_| vec![]).collect()))];
            m.bytes()
        }
        15 => {
            m.props = (0..n / 100 + 1)
                .map(|_| ("a".into(), HeaderProp::Array((0..10).map(|_| vec![("b".into(), HeaderProp::Array((0..10).map(|_| vec![]).collect()))]).collect())))
                .collect();
            m.bytes()
        }
        16 => {
            m.levels = (0..n).map(|j| format!("l{j}")).collect();
            m.bytes()
        }
        17..=20 => {
            let mut c = ByteW::default();
            let at = |c: &mut ByteW, yes: bool, f: &dyn Fn(&mut ByteW)| {
                c.i32(if yes { n as i32 } else { 0 });
                if yes {
                    for _ in 0..n {
                        f(c)
                    }
                }
            };
            c.i32(0);
            at(&mut c, k == 17, &|c| c.raw(&[0; 12]));
            c.i32(0);
            at(&mut c, k == 18, &|c| c.raw(&[0; 12]));
            at(&mut c, k == 19, &|c| c.raw(&[0; 8]));
            c.raw(&[0; 12]);
            at(&mut c, k == 20, &|c| c.raw(&[0; 8]));
            c.i32(0);
            let mut h = ByteW::default();
            h.raw(&m.header());
            seal(&h.0, &c.0).0
        }
        25..=29 => {
            // half of the file in one frame, the rest spread thin
            let (mut m, mut s, _) = one_attr((868, 32, 10), if k == 28 { "TAGame.PRI_TA:ClientLoadoutsOnline" } else { boolean }, 0, false);
            let list = |s: &mut Stream, n: usize| {
                for _ in 0..2 {
                    s.b.bits(n as u64, 8);
                    for _ in 0..n {
                        s.b.bits(0, 8)
                    }
                }
                s.b.bits(0, 2);
            };
            if k == 28 {
                list(&mut s, 255)
            } else {
                s.b.bit(true)
            }
            if k == 25 {
                for _ in 0..n * 8 {
                    s.attr(0, 1);
                    s.b.bit(true);
                }
            }
            s.end_update();
            let o = m.obj("TAGame.Default__PRI_TA");
            match k {
                26 => (0..n * 2).for_each(|_| s.spawn(2, o)),
                27 => (0..n * 8).for_each(|_| s.delete(3)),
                29 => (0..1000).for_each(|j| s.spawn(j + 2, o)),
                _ => {}
            }
            s.end_frame();
            for j in 0..n {
                s.frame(1.0, 0.5);
                match k {
                    25 => {
                        s.update(1);
                        s.attr(0, 1);
                        s.b.bit(true);
                        s.end_update();
                    }
                    26 => s.spawn(2, o),
                    27 => s.delete(3),
                    29 => {
                        s.delete((j % 1000) as i32 + 2);
                        s.spawn((j % 1000) as i32 + 2, o);
                    }
                    _ => {
                        s.update(1);
                        s.attr(0, 1);
                        list(&mut s, 1);
                        s.end_update();
                    }
                }
                s.end_frame();
            }
            s.b.u64(0);
            m.net = s.b.b;
            m.int("NumFrames", n as i32 + 1).bytes()
        }
        30..=32 => {
            // ids say nothing about how many there are
            let a = m.obj("TAGame.Vehicle_TA:bReplicatedHandbrake");
            let id = |j: usize| [4095, 65_000, 65_535, 65_536, 1 << 20, 1 << 24, i32::MAX - 1, i32::MAX][j % 8];
            match k {
                30 => {
                    for j in 0..n {
                        let o = m.objects.len() as i32;
                        m.objects.push(format!("TAGame.Kind{j}_TA"));
                        m.caches.push((o, vec![(a, id(j))]))
                    }
                }
                31 => {
                    let c = m.obj("TAGame.CrowdActor_TA");
                    m.caches.push((c, vec![(a, 65_000)]));
                    for j in 0..n {
                        m.objects.push(format!("TheWorld:PersistentLevel.CrowdActor_TA_{j}"))
                    }
                }
                _ => {
                    m.objects.extend(crate::model::tables().class_list.iter().take(n).map(|x| x.0.to_string()));
                    for j in m.objects.len()..n.max(400) {
                        m.objects.push(format!("Unused.Thing{j}"))
                    }
                    let last = m.objects.len() as i32 - 1;
                    for j in 0..n.min(24_000) {
                        m.caches.push((last - (j as i32 % last.min(1000)), vec![(a, id(j)), (a, 3)]))
                    }
                }
            }
            m.net = vec![0; 16];
            m.int("NumFrames", 1).bytes()
        }
        33..=36 => {
            // everything in one frame
            let (mut m, mut s, _) = one_attr((868, 32, 10), boolean, 0, false);
            s.b.bit(true);
            let car = m.obj("TAGame.PRI_TA");
            let a = m.obj(boolean);
            m.caches.push((car, vec![(a, 0)]));
            let updates = |s: &mut Stream, n: usize| {
                for _ in 0..n {
                    s.attr(0, 1);
                    s.b.bit(true);
                }
            };
            let each = |f: &mut dyn FnMut(i32)| (0..n).for_each(|j| f(2 + (j % 1000) as i32));
            match k {
                33 => {
                    updates(&mut s, n * 4);
                    s.end_update();
                    (0..n * 2).for_each(|j| s.delete(if j % 2 == 0 { 1 } else { 3 }));
                }
                34 => {
                    s.end_update();
                    (0..n * 2).for_each(|j| s.delete(3 + (j % 7) as i32));
                    s.update(1);
                    updates(&mut s, n * 2);
                    s.end_update();
                    (0..n).for_each(|_| {
                        s.update(1);
                        s.attr(0, 1);
                        s.b.bit(true);
                        s.end_update();
                    });
                }
                35 => {
                    s.end_update();
                    each(&mut |j| s.spawn(j, car));
                    each(&mut |j| s.delete(j));
                    each(&mut |j| s.spawn(j, car));
                }
                _ => {
                    s.end_update();
                    each(&mut |j| s.spawn(j, car));
                    each(&mut |j| {
                        s.update(j);
                        s.attr(0, 1);
                        s.b.bit(true);
                        s.end_update();
                    });
                    each(&mut |j| s.delete(j));
                }
            }
            s.end_frame();
            s.b.u64(0);
            m.net = s.b.b;
            m.int("NumFrames", 1).bytes()
        }
        _ => {
            // a hundred units make one text of full length
            m.levels = (0..n / 100 + 1).map(|j| if j % 2 == 0 { "a" } else { "é" }.repeat(4990)).collect();
            m.bytes()
        }
    }
}
fn bounds(ctx: &mut Ctx, what: &str, key: &str, d: &[u8], u: &crate::alloc::Usage) {
    ctx.max("peak heap bytes", u.peak as u64);
    if d.len() > 4096 {
        ctx.max("peak heap bytes per input byte (inputs over 4 KiB)", (u.peak / d.len()) as u64);
        ctx.max("allocated bytes per input byte (inputs over 4 KiB)", u.total / d.len() as u64);
    } else {
        ctx.max("peak heap bytes (inputs up to 4 KiB)", u.peak as u64);
        ctx.max("allocated bytes (inputs up to 4 KiB)", u.total);
    }
    let keep = if d.len() < 1 << 20 { Some(d) } else { None };
    if u.peak > PEAK_BASE + PEAK_PER * d.len() {
        ctx.bad(key, format!("{what}: {} bytes in, {} MiB of heap at once", d.len(), u.peak >> 20), keep)
    } else if u.total > TOTAL_BASE + TOTAL_PER * d.len() as u64 {
        ctx.bad(key, format!("{what}: {} bytes in, {} MiB allocated in all", d.len(), u.total >> 20), keep)
    }
    if u.left > 1 << 15 {
        // nothing may be kept once the result is gone
        ctx.bad(format!("{key}:kept"), format!("{what}: {} bytes still held after the result was dropped", u.left), keep)
    }
}
fn measured(d: &[u8]) -> (bool, crate::alloc::Usage, f64) {
    let t = thread_cpu();
    let (ok, u) = measure(|| catch(|| opts(d, CrcCheck::Always, NetworkParse::Always)).map(|x| x.is_ok()).unwrap_or(false));
    (ok, u, thread_cpu() - t)
}
/// the known case: every object of a family carries its own copy of all it inherits
fn inherited(objects: usize, attrs: usize) -> Vec<u8> {
    let mut m = Mini { net: vec![0; 16], ..Default::default() };
    let c = m.obj("TAGame.CrowdActor_TA");
    let a = m.obj("TAGame.Vehicle_TA:bReplicatedHandbrake");
    m.caches.push((c, (0..attrs).map(|j| (a, j as i32)).collect()));
    for j in 0..objects {
        m.objects.push(format!("TheWorld:PersistentLevel.CrowdActor_TA_{j}"));
    }
    m.int("NumFrames", 1).bytes()
}
fn c02(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        // whatever the library builds once on first use is not what a parse leaves behind
        let mut r = crate::rng::Rng::new(1);
        for k in 0..FAMILIES.len() {
            let d = family(k, 40, &mut r);
            let _ = measured(&d);
            let _ = measured(&d[..d.len() - 1]);
        }
    });
    if i == 0 {
        let d = inherited(6000, 5000);
        let (_, u, _) = measured(&d);
        ctx.eval(&d, true);
        ctx.max("known case: peak heap MiB", (u.peak >> 20) as u64);
        if u.peak > PEAK_BASE + PEAK_PER * d.len() {
            ctx.bad(
                if u.peak > 1 << 30 { "quadratic:inherited attributes, worse than known" } else { "quadratic:inherited attributes" },
                format!("6000 level objects x 5000 inherited attributes: {} KiB in, {} MiB of heap at once", d.len() >> 10, u.peak >> 20),
                None,
            )
        }
        return;
    }
    let fam = FAMILIES.len() as u64 * if ctx.thorough() { 12 } else { 2 };
    if i > fam && i <= fam + FAMILIES.len() as u64 * 3 {
        return failing(ctx, &mut r, (i - fam - 1) as usize % FAMILIES.len(), (i - fam - 1) as usize / FAMILIES.len());
    }
    let rest = i.saturating_sub(fam + FAMILIES.len() as u64 * 3 + 1) as usize;
    if i > fam && rest < REASONS.len() * 6 {
        let k = rest % REASONS.len();
        let n = if rest < REASONS.len() { 22_000 } else { 4_000 + r.usize(20_000) };
        let (mut r1, mut r2) = (ctx.rng(), ctx.rng());
        let (big, small) = (reason(k, n, &mut r1), reason(k, n / 64, &mut r2));
        ctx.hit(format!("failing for a reason that has to do with {}", REASONS[k]));
        return failing_pair(ctx, &big, &small, REASONS[k], &format!("{} x {n}", REASONS[k]));
    }
    let rest = rest.saturating_sub(REASONS.len() * 6);
    if i > fam && rest < 44 * 3 {
        return repeated(ctx, &mut r, rest);
    }
    if i <= fam {
        let k = ((i - 1) as usize) % FAMILIES.len();
        let round = (i - 1) as usize / FAMILIES.len();
        // as large as lists may get, in places without such a limit larger
        let n = match round {
            0 => 24_000,
            1 => 8_000,
            _ => 2_000 + r.usize(23_000),
        };
        let n = match k {
            4 => n / 20,
            0 | 2 | 6 => n * 4,
            _ => n,
        };
        let (big, small) = (family(k, n, &mut r), family(k, n / 16, &mut r));
        let what = format!("{} x {n}", FAMILIES[k]);
        let run = |d: &[u8]| {
            let mut best = measured(d);
            for _ in 0..2 {
                let x = measured(d);
                if x.2 < best.2 {
                    best.2 = x.2
                }
            }
            best
        };
        let (ok_s, us, ts) = run(&small);
        let (ok_b, ub, tb) = run(&big);
        ctx.eval(&big, true);
        if !ok_s || !ok_b {
            let e = opts(&big, CrcCheck::Always, NetworkParse::Always).err().map(|e| format!("{e:.200}"));
            return ctx.bad(format!("family:{}:refused", FAMILIES[k]), format!("{what}: well-formed file refused: {e:?}"), None);
        }
        {
            let g = opts(&big, CrcCheck::Always, NetworkParse::Always).unwrap();
            let f = g.network_frames.as_ref().map(|f| f.frames.as_slice()).unwrap_or_default();
            let ev = f.iter().map(|f| 1 + f.new_actors.len() + f.updated_actors.len() + f.deleted_actors.len()).sum::<usize>();
            if (k < 8 || (25..30).contains(&k) || k >= 33) && ev < n {
                panic!("{what}: only {ev} events")
            }
        }
        ctx.hit("families measured");
        ctx.max(&format!("family {}: allocated bytes per input byte", FAMILIES[k]), ub.total / big.len() as u64);
        ctx.max(&format!("family {}: ms", FAMILIES[k]), (tb * 1000.0) as u64);
        bounds(ctx, &what, &format!("family:{}", FAMILIES[k]), &big, &ub);
        bounds(ctx, &what, &format!("family:{}", FAMILIES[k]), &small, &us);
        // only updates of a few bits weigh more than their bytes
        if !matches!(k, 1 | 25 | 33 | 34) && ub.total > (24 << 20) + 512 * big.len() as u64 {
            ctx.bad(
                format!("family:{}:each", FAMILIES[k]),
                format!("{what}: {} bytes in, {} MiB allocated in all", big.len(), ub.total >> 20),
                None,
            )
        }
        // in proportion (a vector doubling accounts for a factor two)
        let scale = big.len() as f64 / small.len() as f64;
        if ub.total as f64 > us.total as f64 * scale * 3.0 + (16 << 20) as f64 {
            ctx.bad(
                format!("family:{}:growth", FAMILIES[k]),
                format!("{what}: input grew by {scale:.1}, allocations from {} KiB to {} KiB", us.total >> 10, ub.total >> 10),
                None,
            )
        }
        if tb > ts * scale * 2.5 + 0.25 {
            ctx.bad(
                format!("family:{}:cpu", FAMILIES[k]),
                format!("{what}: input grew by {scale:.1}, CPU time from {:.1} ms to {:.1} ms", ts * 1e3, tb * 1e3),
                None,
            )
        }
        return;
    }
    let (what, d) = if i % 3 == 0 {
        let (w, d) = declared(&mut r);
        ctx.hit("declared far more than present");
        (w, d)
    } else {
        let k = r.usize(KINDS.len());
        // nesting beyond the limit is refused early; the rest as in C01
        (KINDS[k].to_string(), hostile::generate(&mut r, k))
    };
    ctx.hit("hostile inputs measured");
    let (_, u, t) = measured(&d);
    ctx.eval(&d, true);
    bounds(ctx, &what, "hostile", &d, &u);
    if t > 1.0 + d.len() as f64 * 20e-6 {
        ctx.bad("hostile:cpu", format!("{what}: {} bytes took {t:.1} s of CPU", d.len()), Some(&d))
    }
    ctx.sample(|| json!({"what": what, "bytes": d.len(), "peak": u.peak, "total": u.total}));
}
/// one frame of `n` updates, all of the same value of one attribute kind: the shortest there is,
/// the one that says the most per bit, or any
fn repeated_value(t: crate::model::Tag, how: usize, n: usize, r: &mut Rng) -> (Vec<u8>, String, usize) {
    let ver = loop {
        let v = *r.pick(&gen::VERSIONS);
        if v.0 > 0 {
            break v;
        }
    };
    let name = *r.pick(&crate::model::tables().by_tag[&t]);
    let (mut m, mut s, _) = one_attr(ver, name, 0, false);
    let prod = ["UserColor", "Painted", "TitleID", "SpecialEdition", "TeamEdition"].map(|p| m.obj(&format!("TAGame.ProductAttribute_{p}_TA")));
    let cfg = gen::AttrCfg { v: m.v(), is_223: false, prod, finite: false, nobj: m.objects.len() as i32 };
    let mut best: Option<(f64, crate::bitio::BitW, String)> = None;
    for _ in 0..if how < 2 { 300 } else { 1 } {
        let mut b = crate::bitio::BitW::default();
        let v = format!("{:?}", gen::enc_attr(r, &mut b, t, &cfg));
        let score = if how == 0 { -(b.n as f64) } else { v.len() as f64 / b.n.max(8) as f64 };
        if best.as_ref().map_or(true, |x| score > x.0) {
            best = Some((score, b, v));
        }
    }
    let (_, v, text) = best.unwrap();
    let n = if v.n > 80 { n * 80 / v.n + 1 } else { n };
    let put = |s: &mut Stream| {
        for k in 0..v.n {
            s.b.bit(v.b[k / 8] >> (k % 8) & 1 == 1)
        }
    };
    put(&mut s);
    for _ in 1..n {
        s.attr(0, 1);
        put(&mut s);
    }
    s.end_update();
    s.end_frame();
    s.b.u64(0);
    m.net = s.b.b;
    (m.int("NumFrames", 1).bytes(), format!("{n} updates to {text:.60} ({} bits each)", v.n), n)
}
fn repeated(ctx: &mut Ctx, r: &mut Rng, k: usize) {
    let t = crate::model::ALL_TAGS[k % 44];
    let (d, what, n) = repeated_value(t, k / 44, if k / 44 < 2 { 200_000 } else { 60_000 }, r);
    let (ok, u, cpu) = measured(&d);
    ctx.eval(&d, true);
    if !ok {
        let e = opts(&d, CrcCheck::Always, NetworkParse::Always).err().map(|e| format!("{e:.200}"));
        return ctx.bad(format!("repeated:{t:?}:refused"), format!("{what}: well-formed file refused: {e:?}"), None);
    }
    ctx.hit("repeated values measured");
    ctx.max(&format!("repeated {t:?}: allocated bytes per input byte"), u.total / d.len() as u64);
    ctx.max("repeated values: peak heap bytes per input byte", (u.peak / d.len()) as u64);
    bounds(ctx, &what, &format!("repeated:{t:?}"), &d, &u);
    // what one update may cost besides its own bits
    ctx.max("repeated values: allocated bytes per update, beyond 100 per input byte", u.total.saturating_sub(100 * d.len() as u64) / n as u64);
    if u.total > (8 << 20) + 2000 * n as u64 + 200 * d.len() as u64 {
        ctx.bad(format!("repeated:{t:?}:each"), format!("{what}: {} bytes in, {} MiB allocated in all", d.len(), u.total >> 20), None)
    }
    if cpu > 1.0 + d.len() as f64 * 5e-6 {
        ctx.bad(format!("repeated:{t:?}:cpu"), format!("{what}: {} bytes took {cpu:.1} s of CPU", d.len()), None)
    }
}
/// the families again, with something missing at the very end: of the network stream, the content
/// or the header. Refusing them, and describing why, is to cost no more than in proportion either.
fn failing(ctx: &mut Ctx, r: &mut Rng, k: usize, how: usize) {
    let n = 2_000 + r.usize(22_000);
    let n = if k == 4 { n / 20 } else { n };
    let cut = |d: Vec<u8>| -> Option<Vec<u8>> {
        let (h, c, _) = hostile::layout(&d)?;
        if how == 0 {
            return hostile::shorten_network(&d, 24);
        }
        let (mut hd, mut cd) = (d[h.0..h.1].to_vec(), d[c.0..c.1].to_vec());
        match how {
            1 => cd.truncate(cd.len() - 3),
            _ => hd.truncate(hd.len() - 5),
        }
        Some(gen::seal(&hd, &cd).0)
    };
    let (Some(big), Some(small)) = (cut(family(k, n, r)), cut(family(k, n / 16, r))) else { return };
    failing_pair(ctx, &big, &small, FAMILIES[k], &format!("{} x {n}, cut at the end ({how})", FAMILIES[k]));
}
const REASONS: [&str; 9] = [
    "unknown names under one id", "known names under one id", "frames", "live actors", "unknown properties of a class", "unknown name used", "long key", "long kind", "unknown names on a class line",
];
/// files in which a great deal has to do with what makes them fail
fn reason(k: usize, n: usize, r: &mut Rng) -> Vec<u8> {
    let mut m = Mini::default();
    let c = m.obj("TAGame.Default__PRI_TA");
    let title = m.obj("TAGame.PRI_TA:Title");
    let flag = m.obj("TAGame.Vehicle_TA:bReplicatedHandbrake");
    let pad = r.usize(80);
    let name = |j: usize| format!("TAGame.{}_TA:bUnheardOf{j:06}", "x".repeat(pad));
    let tail = |m: &mut Mini, id: i32, max: i64, frames: usize, actors: usize| {
        let mut s = Stream::new(m, 1 << 20);
        for _ in 0..frames {
            s.frame(1.0, 0.5);
            s.end_frame();
        }
        s.frame(1.0, 0.5);
        for j in 0..actors {
            s.spawn(j as i32 + 2, c);
        }
        s.spawn(1, c);
        s.update(1);
        s.attr(id, max);
        s.b.u64(0);
        let mut net = s.b.b;
        net.resize(net.len().max(frames + 1) + 8, 0);
        m.net = net;
        std::mem::take(m).int("MaxChannels", 1 << 20).int("NumFrames", frames as i32 + 1).bytes()
    };
    match k {
        0 | 1 | 5 | 8 => {
            m.caches.push((c, if k == 5 || k == 8 { vec![(title, 3), (flag, 2)] } else { vec![(title, 3)] }));
            let itself = k == 0;
            for j in 0..if itself { n } else { n / 2 } {
                m.objects.push(format!("TheWorld:PersistentLevel.CrowdActor_TA_{j:06}"));
                if itself {
                    // a property called like the object that has it
                    let at = m.objects.len() as i32 - 1;
                    m.caches.push((at, vec![(at, 2)]));
                    continue;
                }
                m.objects.push(if k == 1 { "TAGame.PRI_TA:Title".into() } else { name(j) });
                let at = m.objects.len() as i32;
                m.caches.push((at - 2, vec![(at - 1, 2)]));
            }
            if k == 5 {
                let at = m.objects.len() as i32;
                m.caches[0].1[1].0 = at - 1;
            }
            if k == 8 {
                // the title it is, which lacks its data
                m.caches[0].1[1].0 = title;
                let d = tail(&mut m, 2, 4, 0, 0);
                return hostile::shorten_network(&d, 8).unwrap_or(d);
            }
            tail(&mut m, 2, 4, 0, 0)
        }
        2 => {
            m.caches.push((c, vec![(title, 3)]));
            tail(&mut m, 2, 4, n * 2, 0)
        }
        3 => {
            m.caches.push((c, vec![(title, 3)]));
            tail(&mut m, 2, 4, 0, n * 2)
        }
        4 => {
            let mut p = vec![];
            for j in 0..n {
                m.objects.push(name(j));
                p.push((m.objects.len() as i32 - 1, j as i32));
            }
            m.caches.push((c, p));
            tail(&mut m, n as i32 / 2, n as i64, 0, 0)
        }
        _ => {
            let mut h = ByteW::default();
            h.i32(868);
            h.i32(17);
            h.str("TAGame.Replay_Soccar_TA");
            let long = "é".repeat(n * 20);
            h.str(if k == 6 { &long } else { "k" });
            h.str(if k == 6 { "Nope" } else { &long });
            h.raw(&[0; 16]);
            seal(&h.0, &m.content()).0
        }
    }
}
fn failing_pair(ctx: &mut Ctx, big: &[u8], small: &[u8], family: &str, what: &str) {
    let key = format!("failing:{family}");
    let run = |d: &[u8]| {
        let mut best: Option<(bool, crate::alloc::Usage, f64)> = None;
        for _ in 0..3 {
            let t = thread_cpu();
            let (ok, u) = measure(|| {
                let mut bad = 0;
                for (c, n) in [(CrcCheck::OnError, NetworkParse::IgnoreOnError), (CrcCheck::Always, NetworkParse::Always)] {
                    if let Err(e) = opts(d, c, n) {
                        bad += 1;
                        std::hint::black_box(format!("{e}"));
                    }
                }
                bad
            });
            let t = thread_cpu() - t;
            match &mut best {
                Some(b) => b.2 = b.2.min(t),
                None => best = Some((ok > 0, u, t)),
            }
        }
        best.unwrap()
    };
    let (Some((ok_s, us, ts)), Some((ok_b, ub, tb))) = (ctx.guard("parse", small, || run(small)), ctx.guard("parse", big, || run(big))) else { return };
    ctx.eval(big, true);
    if !ok_s || !ok_b {
        return;
    }
    ctx.hit("failing families measured");
    if REASONS.contains(&family) {
        ctx.hit(&format!("failing: {family}"));
    }
    ctx.max("failing family: peak heap bytes per input byte", (ub.peak / big.len()) as u64);
    // two parses
    let half = |u: &crate::alloc::Usage| crate::alloc::Usage { total: u.total / 2, ..u.clone() };
    bounds(ctx, what, &key, big, &half(&ub));
    let scale = big.len() as f64 / small.len() as f64;
    if ub.total as f64 > us.total as f64 * scale * 3.0 + (32 << 20) as f64 {
        ctx.bad(format!("{key}:growth"), format!("{what}: input grew by {scale:.1}, allocations from {} KiB to {} KiB", us.total >> 10, ub.total >> 10), None)
    }
    ctx.max("failing families: CPU time against growth in proportion, percent", (tb / (ts * scale + 0.001) * 100.0) as u64);
    ctx.max("failing families: CPU ms", (tb * 1e3) as u64);
    if tb > ts * scale * 3.0 + 0.15 {
        ctx.bad(format!("{key}:cpu"), format!("{what}: input grew by {scale:.1}, CPU time from {:.1} ms to {:.1} ms", ts * 1e3, tb * 1e3), None)
    }
}
/// small files that claim to contain a lot
fn declared(r: &mut Rng) -> (String, Vec<u8>) {
    let n = *r.pick(&[25_000, 24_999, 20_000, 25_001, 1 << 30, i32::MAX]);
    match r.below(8) {
        0 => {
            // an array at every level, each as long as allowed
            let depth = 1 + r.usize(80);
            let mut h = ByteW::default();
            h.i32(868);
            h.i32(17);
            h.str("G");
            for _ in 0..depth {
                h.str("a");
                h.str("ArrayProperty");
                h.i32(0);
                h.i32(0);
                h.i32(n);
            }
            ("nested arrays".into(), seal(&h.0, &[]).0)
        }
        1 => {
            let m = Mini::default();
            let mut c = ByteW::default();
            let k = r.usize(9);
            for _ in 0..k {
                c.i32(0);
            }
            c.i32(n);
            ("a body list".into(), seal(&m.header(), &c.0).0)
        }
        2 => {
            let mut m = Mini::default();
            let k = if r.chance(1, 3) { 20_000 + r.usize(200_000) } else { r.usize(2000) };
            m.net = if r.chance(1, 2) { r.bytes(k) } else { vec![0; k] };
            let f = match r.below(3) {
                0 => k as i32,
                1 => ((k as i64 + 1) * (1 << r.below(12))).min(i32::MAX as i64) as i32 + r.below(9) as i32,
                _ => n,
            };
            ("frames".into(), m.int("NumFrames", f).bytes())
        }
        3 => {
            let mut m = Mini { net: vec![0xff; 64], ..Default::default() };
            m.objects = vec!["TAGame.Default__PRI_TA".into(), "TAGame.Vehicle_TA:bReplicatedHandbrake".into()];
            let sids = [i32::MAX, i32::MIN, -1, 1 << 30, 1 << 24];
            m.caches = (0..200).map(|j| (0, vec![(1, r.pick(&sids).wrapping_sub(j))])).collect();
            ("stream ids".into(), m.int("NumFrames", 1).bytes())
        }
        4 => {
            // one spawned actor with the largest id there is, many channels
            let mut m = Mini::default();
            let o = m.obj("TAGame.Default__PRI_TA");
            let mc = *r.pick(&[i32::MAX, i32::MIN, -1, 1 << 24]);
            let mut s = Stream::new(&m, mc as u32);
            for _ in 0..20 {
                s.frame(1.0, 1.0);
                let id = gen::actor_id(r, mc as u32) as i32;
                s.spawn(id, o);
                s.end_frame();
            }
            m.net = s.b.b;
            ("actor ids".into(), m.int("MaxChannels", mc).int("NumFrames", 20).bytes())
        }
        5 => {
            let name = *r.pick(&["Engine.GameReplicationInfo:ServerName", "TAGame.PRI_TA:ClientLoadoutOnline", "TAGame.PRI_TA:ClientLoadoutsOnline", "Engine.PlayerReplicationInfo:UniqueId"]);
            let (mut m, mut s, _) = one_attr((868, 32, 10), name, 0, false);
            if r.chance(1, 2) {
                s.b.i32(*r.pick(&[i32::MAX, i32::MIN, 1024, 1 << 20]));
            }
            for _ in 0..200 {
                s.b.bits(0xff, 8);
            }
            m.net = s.b.b;
            ("attribute lengths".into(), m.int("NumFrames", 1).bytes())
        }
        6 => {
            let mut h = ByteW::default();
            h.i32(868);
            h.i32(17);
            h.i32(*r.pick(&[i32::MAX, i32::MIN, -10_000, 10_000, -10_001, 10_001, 1 << 28, i32::MIN / 2, i32::MIN / 2 + 1]));
            h.raw(b"abc");
            ("a text".into(), seal(&h.0, &[]).0)
        }
        _ => {
            let m = Mini::default();
            let mut d = seal(&m.header(), &m.content()).0;
            let at = if r.chance(1, 2) { 0 } else { 8 + m.header().len() };
            d[at..at + 4].copy_from_slice(&n.to_le_bytes());
            ("section sizes".into(), d)
        }
    }
}

// ------------------------------------------------------------------ C03

pub static C03: Prop = Prop {
    id: "C03",
    quick: 12_000,
    thorough: 400_000,
    run: c03,
    rule: "a case is one file parsed, used and dropped with AddressSanitizer watching every heap and stack access; and, for small files, under Miri (out-of-bounds, uninitialised reads, aliasing, alignment, leaks). A sanitizer report ends the worker and is a violation",
    need: &[("parses", 30_000), ("ok", 3_000), ("refused", 8_000), ("parses under Miri", 60), ("ok under Miri", 5), ("concurrent parses under Miri", 20)],
    assumptions: &["AddressSanitizer and Miri report the bad accesses they are documented to report", "Miri sees a few hundred small inputs only"],
};
fn c03(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    if i == 0 {
        let Ok(dir) = std::env::var("VH_MIRI") else { return };
        for k in 0..64 {
            let Ok(t) = std::fs::read(format!("{dir}/{k}.out")) else { break };
            let t = String::from_utf8_lossy(&t);
            if let Some(l) = t.lines().find_map(|l| l.strip_prefix("MIRI ")) {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                for (k, n) in v.as_object().unwrap() {
                    ctx.add(k.clone(), n.as_u64().unwrap_or(0));
                }
            }
            let lines: Vec<&str> = t.lines().collect();
            let e = lines.iter().position(|l| l.starts_with("error: Undefined Behavior") || l.starts_with("error: memory leaked"));
            if let Some(e) = e {
                let input = lines[..e].iter().rev().find_map(|l| l.strip_prefix("INPUT ")).and_then(|l| {
                    let p: usize = l.split(' ').nth(2)?.parse().ok()?;
                    let pack = std::fs::read(format!("{dir}/{k}.pack")).ok()?;
                    let n = u32::from_le_bytes(pack.get(p..p + 4)?.try_into().ok()?) as usize;
                    Some(pack.get(p + 4..p + 4 + n)?.to_vec())
                });
                let what = lines[e..].iter().take(14).map(|l| l.trim()).collect::<Vec<_>>().join(" | ");
                ctx.bad("miri", format!("Miri: {what}"), input.as_deref());
            } else if let Some(e) = lines.iter().find(|l| l.starts_with("error")) {
                ctx.hit(format!("Miri stopped: {e}"));
            }
        }
        return;
    }
    let kind = (i % (KINDS.len() as u64 + 2)) as usize;
    let d = if kind < KINDS.len() {
        hostile::generate(&mut r, kind)
    } else if kind == KINDS.len() {
        let n = 1 + r.usize(400);
        family(r.usize(FAMILIES.len()), n, &mut r)
    } else {
        let o = NetOpts { frames: 1 + r.usize(8), ops: 1 + r.usize(12), classes: 1 + r.usize(6), rich_header: true, rich_body: true, ..Default::default() };
        gen::synth(&mut r, &o).bytes
    };
    for (k, n) in NETS.into_iter().enumerate() {
        let c = CRCS[(k + i as usize) % 3];
        // an exact-size heap copy, so that one byte too far is out of bounds
        let own: Box<[u8]> = d.clone().into_boxed_slice();
        let r = catch(|| {
            let res = opts(&own, c, n);
            exercise(&res, own.len() < 8000 && k == 0);
            res.is_ok()
        });
        ctx.hit("parses");
        match r {
            Ok(true) => ctx.hit("ok"),
            Ok(false) => ctx.hit("refused"),
            Err(p) if format!("{p:?}").contains(INVALID) => return ctx.bad("utf8", format!("{p:?}"), Some(&d)),
            Err(_) => ctx.hit("panics (judged by C01)"),
        }
    }
    ctx.eval(&d, true);
    if i % 1000 == 7 {
        // and a whole real replay now and then
        let g = corpus::good();
        let (n, d) = &g[r.usize(g.len())];
        if d.len() < 800_000 {
            let own: Box<[u8]> = d.clone().into_boxed_slice();
            let _ = catch(|| opts(&own, CrcCheck::Always, NetworkParse::Always).is_ok());
            ctx.hit("real replays");
            let _ = n;
        }
    }
    ctx.sample(|| json!({"bytes": d.len()}));
}
/// small files for Miri, written out beforehand since generating them under Miri is slow:
/// one pack (length, bytes, ...) per shard
pub fn emit(dir: &str, seed: u64, shards: u64, per: u64) {
    let mut k = 0;
    for shard in 0..shards {
        let mut pack = vec![];
        let mut n = 0u64;
        while n < per {
            k += 1;
            let mut r = Rng::new(crate::rng::mix(seed.wrapping_mul(1_000_003) ^ k));
            let d = match n % 5 {
                0 => {
                    // each kind of attribute in turn
                    let t = crate::model::ALL_TAGS[((n / 5 * shards + shard + seed * 7) % 44) as usize];
                    gen::synth(&mut r, &NetOpts { frames: 1, ops: 4, classes: 1, tags: vec![t], ..Default::default() }).bytes
                }
                1 => gen::synth(&mut r, &NetOpts { frames: 2, ops: 3, classes: 1, ..Default::default() }).bytes,
                2 => {
                    let mut d = gen::synth(&mut r, &NetOpts { frames: 1, ops: 3, classes: 1, ..Default::default() }).bytes;
                    hostile::edit(&mut r, &mut d);
                    d
                }
                _ => {
                    let kind = *r.pick(&[2usize, 3, 4, 5, 6, 11, 12, 13, 18, 19, 19]);
                    hostile::generate(&mut r, kind)
                }
            };
            if d.len() > 2000 {
                continue;
            }
            pack.extend_from_slice(&(d.len() as u32).to_le_bytes());
            pack.extend_from_slice(&d);
            n += 1;
        }
        std::fs::write(format!("{dir}/{shard}.pack"), &pack).unwrap();
    }
}
/// runs under Miri: `vh miri PACK seconds`
pub fn miri(pack: &str, secs: f64) {
    let t0 = std::time::Instant::now();
    let pack = std::fs::read(pack).unwrap();
    let (mut parses, mut ok, mut refused, mut bytes, mut conc) = (0u64, 0u64, 0u64, 0u64, 0u64);
    crate::run::install_hook();
    // before anything else has run in this process: different files on several threads, so that
    // whatever is set up on first use is set up by several at once (Miri reports data races)
    {
        let mut files: Vec<&[u8]> = vec![];
        let mut p = 0;
        while p < pack.len() && files.len() < 4 {
            let n = u32::from_le_bytes(pack[p..p + 4].try_into().unwrap()) as usize;
            if n < 1200 {
                files.push(&pack[p + 4..p + 4 + n]);
            }
            p += 4 + n;
        }
        println!("INPUT 0 at 0 {:.1}s", t0.elapsed().as_secs_f64());
        let n = files.len();
        std::thread::scope(|s| {
            for (k, d) in files.into_iter().enumerate() {
                s.spawn(move || {
                    let c = [CrcCheck::Always, CrcCheck::OnError, CrcCheck::Always, CrcCheck::Never][k];
                    let _ = catch(|| match opts(d, c, NetworkParse::Always) {
                        Ok(r) => serde_json::to_string(&r.properties.len()).map_or(0, |x| x.len()),
                        Err(e) => format!("{e}").len(),
                    });
                });
            }
        });
        conc += n as u64;
    }
    let mut prev: Option<Box<[u8]>> = None;
    let mut p = 0;
    let mut i = 0;
    while p < pack.len() && t0.elapsed().as_secs_f64() < secs {
        let n = u32::from_le_bytes(pack[p..p + 4].try_into().unwrap()) as usize;
        let d: Box<[u8]> = pack[p + 4..p + 4 + n].into();
        println!("INPUT {i} at {p} {:.1}s", t0.elapsed().as_secs_f64());
        p += 4 + n;
        bytes += n as u64;
        let (c, n) = [(CrcCheck::Never, NetworkParse::Always), (CrcCheck::OnError, NetworkParse::Always), (CrcCheck::Always, NetworkParse::IgnoreOnError)][i % 3];
        let (last, last_n) = (prev.replace(d.clone()), n);
        let r = catch(|| {
            let res = opts(&d, c, n);
            if let Err(e) = &res {
                let _ = format!("{e}").len();
            }
            res.is_ok()
        });
        parses += 1;
        match r {
            Ok(true) => ok += 1,
            _ => refused += 1,
        }
        if i % 12 == 4 {
            // several threads on the same bytes and on others: Miri reports data races
            std::thread::scope(|s| {
                for k in 0..3 {
                    let (d, c) = match (&last, k) {
                        (Some(x), 2) => (x, CrcCheck::Always),
                        (_, 1) => (&d, CrcCheck::Always),
                        _ => (&d, CrcCheck::Never),
                    };
                    s.spawn(move || {
                        let _ = catch(|| opts(d, c, last_n).is_ok());
                    });
                }
            });
            conc += 3;
        }
        i += 1;
    }
    println!(
        "MIRI {}",
        json!({"parses under Miri": parses, "ok under Miri": ok, "refused under Miri": refused, "bytes under Miri": bytes, "concurrent parses under Miri": conc})
    );
}
