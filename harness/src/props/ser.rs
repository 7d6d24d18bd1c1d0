//! What comes out through serde, and that the same bytes always give the same result.
use super::*;
use crate::corpus;
use crate::gen::{self, NetOpts};
use crate::hostile;
use crate::json;
use crate::rng::{mix, Rng};
use crate::run::hash;
use serde_json::json;

fn rich(r: &mut Rng, finite: bool) -> gen::Synth {
    let o = NetOpts {
        frames: 1 + r.usize(6),
        ops: 1 + r.usize(12),
        classes: 1 + r.usize(6),
        finite,
        rich_header: r.chance(1, 2),
        rich_body: r.chance(1, 2),
        ..Default::default()
    };
    gen::synth(r, &o)
}
/// frames 0..40 and a stretch from the middle; all of them when thorough
fn some_frames(r: &mut Rng, f: &[Frame], all: bool) -> Vec<Frame> {
    if all || f.len() <= 200 {
        return f.to_vec();
    }
    let mut v = f[..40].to_vec();
    let a = 40 + r.usize(f.len() - 200);
    v.extend_from_slice(&f[a..a + 160]);
    v
}
fn real(ctx: &mut Ctx, i: u64, r: &mut Rng) -> Option<(String, Replay)> {
    let (n, d) = &corpus::good()[i as usize];
    let mut x = ctx.guard("parse", d, || opts(d, CrcCheck::Never, NetworkParse::IgnoreOnError).ok())??;
    ctx.hit("real replays");
    if let Some(f) = &mut x.network_frames {
        f.frames = some_frames(r, &f.frames, ctx.thorough());
    }
    Some((n.clone(), x))
}

// ------------------------------------------------------------------ C17

pub static C17: Prop = Prop {
    id: "C17",
    quick: 200_000,
    thorough: 2_000_000,
    run: c17,
    rule: "a case is one parsed (or directly built) replay written as JSON; the text is read back by the harness' own JSON reader and compared value by value with what the documentation says must be there",
    need: &[("real replays", 100), ("values compared", 500_000), ("floats compared", 50_000), ("non-finite floats", 50), ("large integers as text", 500), ("attribute kinds seen", 43), ("replays without frames", 100), ("repeated keys", 50)],
    assumptions: &["serde_json writes what the Serialize implementations hand it"],
};
fn check_json(ctx: &mut Ctx, what: &str, r: &Replay, input: Option<&[u8]>) {
    let d = input.unwrap_or(&[]);
    let Some(text) = ctx.guard("to_string", d, || serde_json::to_string(r)) else { return };
    let text = match text {
        Ok(t) => t,
        Err(e) => return ctx.bad("refused", format!("{what}: not serialisable: {e}"), input),
    };
    let mut texts = vec![text];
    if texts[0].len() < 20_000 {
        texts.extend(ctx.guard("to_string_pretty", d, || serde_json::to_string_pretty(r)).and_then(|x| x.ok()));
        texts.extend(ctx.guard("to_vec", d, || serde_json::to_vec(r)).and_then(|x| x.ok()).and_then(|x| String::from_utf8(x).ok()));
    }
    let want = json::replay(r);
    for t in texts {
        let j = match json::parse(&t) {
            Ok(j) => j,
            Err(e) => return ctx.bad("malformed", format!("{what}: not JSON: {e}"), input),
        };
        let mut tally = json::Tally::default();
        let x = json::diff(&j, &want, &mut tally);
        ctx.add("values compared", tally.values);
        ctx.add("floats compared", tally.floats);
        ctx.add("non-finite floats", tally.null_floats);
        ctx.add("large integers as text", tally.big_ints);
        for (k, n) in tally.variants {
            ctx.add(format!("kind {k}"), n);
        }
        if let Some(x) = x {
            let key: String = x.split(|c: char| c == ' ' || c == '[').next().unwrap_or("").to_string();
            return ctx.bad(format!("json:{key}"), format!("{what}: {x}"), input);
        }
    }
}
fn c17(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    if (i as usize) < corpus::good().len() {
        let Some((n, x)) = real(ctx, i, &mut r) else { return };
        ctx.eval(n.as_bytes(), true);
        check_json(ctx, &n, &x, None);
        return;
    }
    let s = rich(&mut r, false);
    let n = if r.chance(1, 20) { NetworkParse::Never } else { NetworkParse::Always };
    let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, CrcCheck::Never, n)) else { return };
    // what is judged is the text for the value at hand; that it is the right value is for the others
    let mut x = got.unwrap_or_else(|_| s.expect.clone());
    if r.chance(1, 4) {
        odd(&mut r, &mut x);
    }
    if x.network_frames.is_none() {
        ctx.hit("replays without frames");
    }
    let mut seen = std::collections::HashSet::new();
    if x.properties.iter().any(|p| !seen.insert(&p.0)) {
        ctx.hit("repeated keys");
    }
    for f in x.network_frames.iter().flat_map(|f| &f.frames) {
        for u in &f.updated_actors {
            let n = format!("{:?}", u.attribute);
            let n = n.split('(').next().unwrap_or("").to_string();
            let k = format!("seen {n}");
            if !ctx.counters.contains_key(&k) {
                ctx.hit(k);
            }
        }
    }
    // how many kinds this worker has seen; merged by the largest
    let kinds = ctx.counters.keys().filter(|k| k.starts_with("seen ")).count() as u64;
    ctx.max("attribute kinds seen", kinds);
    ctx.eval(&s.bytes, true);
    check_json(ctx, "generated", &x, Some(&s.bytes));
    ctx.sample(|| json!({"frames": x.network_frames.as_ref().map(|f| f.frames.len()), "properties": x.properties.len()}));
}
/// values no file would produce easily
fn odd(r: &mut Rng, x: &mut Replay) {
    x.header_crc = r.u32e();
    x.content_crc = r.u32e();
    x.header_size = r.i32e();
    x.content_size = r.i32e();
    x.net_version = if r.chance(1, 2) { None } else { Some(r.i32e()) };
    let texts = ["", "\"", "\\", "\u{0}", "\u{7f}", "\u{1f}\n\r\t\u{8}\u{c}", "\u{2028}", "💥", "\u{fffd}", "</script>", "None", "null", "é"];
    x.game_type = r.pick(&texts).to_string();
    let mut n = 0;
    while r.chance(3, 4) && n < 12 {
        n += 1;
        let k = if r.chance(1, 3) { "same".to_string() } else { r.pick(&texts).to_string() };
        let v = match r.below(9) {
            0 => HeaderProp::Int(r.i32e()),
            1 => HeaderProp::QWord(*r.pick(&[0, 1, u64::MAX, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1])),
            2 => HeaderProp::Float(f32::from_bits(r.u32e())),
            3 => HeaderProp::Float(*r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN_POSITIVE, 1e-45, f32::MAX, 16777217.0, 0.1])),
            4 => HeaderProp::Byte { kind: r.pick(&texts).to_string(), value: if r.chance(1, 2) { None } else { Some(r.pick(&texts).to_string()) } },
            5 => HeaderProp::Array(vec![vec![], vec![("same".into(), HeaderProp::Int(1)), ("same".into(), HeaderProp::Int(2))]]),
            6 => HeaderProp::Struct { name: r.pick(&texts).to_string(), fields: vec![("f".into(), HeaderProp::Array(vec![])), ("f".into(), HeaderProp::Bool(false))] },
            7 => HeaderProp::Name(r.pick(&texts).to_string()),
            _ => HeaderProp::Bool(r.chance(1, 2)),
        };
        x.properties.push((k, v));
    }
}

// ------------------------------------------------------------------ C18

pub static C18: Prop = Prop {
    id: "C18",
    quick: 150_000,
    thorough: 2_000_000,
    run: c18,
    rule: "a case is the decoded frames of one replay, written and read back through serde in formats of different character (JSON text, JSON values, CBOR, and bincode, which is not self-describing); every frame must come back equal",
    need: &[("real replays", 100), ("frames json", 10_000), ("frames json value", 5_000), ("frames json reader", 5_000), ("frames cbor", 10_000), ("frames bincode", 10_000), ("frames with other values in their fields", 20_000), ("attribute kinds seen", 43), ("updates", 30_000)],
    assumptions: &["non-finite floats are left out for JSON, which has none", "serde_json, ciborium and bincode-next reproduce what they are given"],
};
fn finite(f: &Frame) -> bool {
    !format!("{f:?}").contains("NaN") && !format!("{f:?}").contains("inf")
}
fn same(ctx: &mut Ctx, fmt: &str, a: &[Frame], b: Result<Vec<Frame>, String>, input: Option<&[u8]>) {
    match b {
        Err(e) => ctx.bad(format!("{fmt}:refused"), format!("{fmt}: {e:.400}"), input),
        Ok(b) => {
            ctx.add(format!("frames {fmt}"), b.len() as u64);
            if a.len() != b.len() {
                return ctx.bad(format!("{fmt}:length"), format!("{fmt}: {} frames became {}", a.len(), b.len()), input);
            }
            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                if let Some(d) = frame_diff_one_nan(y, x) {
                    return ctx.bad(format!("{fmt}:frame"), format!("{fmt}: frame {i}: {d}"), input);
                }
            }
        }
    }
}
fn trip(ctx: &mut Ctx, f: &[Frame], input: Option<&[u8]>) {
    let d = input.unwrap_or(&[]);
    let e = |x: &dyn std::fmt::Display| format!("{x}");
    let fin: Vec<Frame> = f.iter().filter(|x| finite(x)).cloned().collect();
    if let Some(x) = ctx.guard("json", d, || {
        let t = serde_json::to_string(&fin).map_err(|x| e(&x))?;
        serde_json::from_str::<Vec<Frame>>(&t).map_err(|x| e(&x))
    }) {
        same(ctx, "json", &fin, x, input)
    }
    if fin.len() < 300 {
        if let Some(x) = ctx.guard("json value", d, || {
            let t = serde_json::to_value(&fin).map_err(|x| e(&x))?;
            serde_json::from_value::<Vec<Frame>>(t).map_err(|x| e(&x))
        }) {
            same(ctx, "json value", &fin, x, input)
        }
        if let Some(x) = ctx.guard("json reader", d, || {
            let t = serde_json::to_vec_pretty(&fin).map_err(|x| e(&x))?;
            serde_json::from_reader::<_, Vec<Frame>>(&t[..]).map_err(|x| e(&x))
        }) {
            same(ctx, "json reader", &fin, x, input)
        }
    }
    if let Some(x) = ctx.guard("cbor", d, || {
        let mut t = vec![];
        ciborium::into_writer(f, &mut t).map_err(|x| e(&x))?;
        ciborium::from_reader::<Vec<Frame>, _>(&t[..]).map_err(|x| e(&x))
    }) {
        same(ctx, "cbor", f, x, input)
    }
    if let Some(x) = ctx.guard("bincode", d, || {
        let c = bincode_next::config::standard();
        let t = bincode_next::serde::encode_to_vec(f, c).map_err(|x| e(&x))?;
        let (v, n) = bincode_next::serde::decode_from_slice::<Vec<Frame>, _>(&t, c).map_err(|x| e(&x))?;
        if n != t.len() {
            return Err(format!("{n} of {} bytes read", t.len()));
        }
        Ok(v)
    }) {
        same(ctx, "bincode", f, x, input)
    }
}
/// something else for one place in a tree, or not
fn edit(r: &mut Rng, v: &mut serde_json::Value) {
    use serde_json::Value as J;
    let f32s = [-0.0f32, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, 16777217.0, 0.1, 1e-10, 3.4e38, 1.0000001];
    match v {
        J::Null => *v = r.pick(&[json!(0), json!(1), json!(255), json!(""), json!("é"), json!({"x": 1.5, "y": -0.0, "z": 1e-30})]).clone(),
        J::Bool(b) => *b = !*b,
        J::Number(n) if n.is_f64() => *v = if r.chance(1, 8) { J::Null } else { json!(*r.pick(&f32s)) },
        J::Number(_) => {
            *v = match r.below(8) {
                0 => J::Null,
                1 => json!(*r.pick(&[0i64, 1, 127, 128, 255, 256, 65535, 65536, i32::MAX as i64, u32::MAX as i64])),
                2 => json!(*r.pick(&[-1i64, -128, -32768, i32::MIN as i64, i32::MIN as i64 + 1])),
                _ => json!(*r.pick(&[0i64, 0, 1, 2, 255, 100])),
            }
        }
        J::String(t) => {
            *v = match r.below(4) {
                0 if t.parse::<i64>().is_ok() || r.chance(1, 3) => json!(r.pick(&[0u64, 1, u64::MAX, 1 << 63, (1 << 53) + 1, i64::MAX as u64]).to_string()),
                1 if t.starts_with('-') || r.chance(1, 3) => json!(r.pick(&[i64::MIN, -1, 0]).to_string()),
                2 => J::Null,
                _ => json!(*r.pick(&["", "0", "\u{0}", "é\u{2028}", "💥", " a ", "a\"b\\", "None", "\u{feff}x", "-1", "null", "1e3", "NaN"])),
            }
        }
        J::Array(a) => match r.below(4) {
            0 | 1 => a.clear(),
            2 => {
                a.pop();
            }
            _ => {
                if let Some(x) = a.last().cloned() {
                    let n = 1 + r.usize(300);
                    a.extend(std::iter::repeat(x).take(n))
                }
            }
        },
        J::Object(_) => {
            if r.chance(1, 3) {
                *v = J::Null
            }
        }
    }
}
fn count(v: &serde_json::Value) -> usize {
    1 + match v {
        serde_json::Value::Array(a) => a.iter().map(count).sum(),
        serde_json::Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
/// the k-th node
fn nth<'a>(v: &'a mut serde_json::Value, k: &mut usize) -> Option<&'a mut serde_json::Value> {
    if *k == 0 {
        return Some(v);
    }
    *k -= 1;
    match v {
        serde_json::Value::Array(a) => a.iter_mut().find_map(|x| nth(x, k)),
        serde_json::Value::Object(o) => o.values_mut().find_map(|x| nth(x, k)),
        _ => None,
    }
}
/// the frame with other values in some of its fields, whatever of that its types admit
fn edited(r: &mut Rng, f: &Frame) -> Option<Frame> {
    let mut now = serde_json::to_value(f).ok()?;
    let mut best = None;
    for _ in 0..4 {
        let mut t = now.clone();
        let k = r.usize(count(&t));
        edit(r, nth(&mut t, &mut { k })?);
        if let Ok(x) = serde_json::from_value::<Frame>(t.clone()) {
            now = t;
            best = Some(x);
        }
    }
    best
}
fn c18(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    if (i as usize) < corpus::good().len() {
        let Some((n, x)) = real(ctx, i, &mut r) else { return };
        ctx.eval(n.as_bytes(), true);
        let f = x.network_frames.map(|f| f.frames).unwrap_or_default();
        ctx.add("updates", f.iter().map(|f| f.updated_actors.len() as u64).sum());
        trip(ctx, &f, None);
        return;
    }
    let fin = r.chance(3, 4);
    let s = rich(&mut r, fin);
    let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, CrcCheck::Never, NetworkParse::IgnoreOnError)) else { return };
    let f = got.ok().and_then(|x| x.network_frames).unwrap_or_else(|| s.expect.network_frames.clone().unwrap()).frames;
    for u in f.iter().flat_map(|f| &f.updated_actors) {
        let n = format!("{:?}", u.attribute);
        let k = format!("seen {}", n.split('(').next().unwrap_or(""));
        if !ctx.counters.contains_key(&k) {
            ctx.hit(k);
        }
    }
    let kinds = ctx.counters.keys().filter(|k| k.starts_with("seen ")).count() as u64;
    ctx.max("attribute kinds seen", kinds);
    ctx.add("updates", f.iter().map(|f| f.updated_actors.len() as u64).sum());
    ctx.eval(&s.bytes, true);
    trip(ctx, &f, Some(&s.bytes));
    let Some(other) = ctx.guard("reading edited frames", &[], || f.iter().filter(|x| finite(x)).filter_map(|x| edited(&mut r, x)).collect::<Vec<Frame>>()) else { return };
    ctx.add("frames with other values in their fields", other.len() as u64);
    if !other.is_empty() {
        trip(ctx, &other, None);
    }
    ctx.sample(|| json!({"frames": f.len(), "updates": f.iter().map(|f| f.updated_actors.len()).sum::<usize>()}));
}

// ------------------------------------------------------------------ C19

pub static C19: Prop = Prop {
    id: "C19",
    quick: 40_000,
    thorough: 200_000,
    run: c19,
    rule: "a case is one file parsed repeatedly: after other files (unrelated ones, and ones with the same objects, the same sizes or the same checksum fields), at another address and alignment inside other bytes, from several threads at once, and (in batches) in other processes and in a build with other optimisation and check settings; all results must be the same",
    need: &[("real replays", 100), ("repeated", 5_000), ("after a related file", 2_000), ("overwritten in place", 3_000), ("compared as equal", 4_000), ("relocated", 5_000), ("concurrent parses", 5_000), ("results compared across processes", 1_500), ("results compared across builds", 1_500), ("ok", 2_000), ("refused", 1_500)],
    assumptions: &["schedules are those the operating system produced"],
};
fn print(x: &Result<Replay, ParseError>) -> String {
    match x {
        Ok(r) => format!("{r:?}"),
        Err(e) => format!("{e:?} / {e}"),
    }
}
fn eq(a: &Result<Replay, ParseError>, b: &Result<Replay, ParseError>) -> Option<String> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a == b {
                None
            } else {
                replay_diff(a, b, false)
            }
        }
        _ => {
            let (x, y) = (print(a), print(b));
            if x == y {
                None
            } else {
                Some(format!("{x:.600} / {y:.600}"))
            }
        }
    }
}
/// a file close to `d` (which may be replaced by another one, and its policy)
fn related(r: &mut Rng, d: &mut Vec<u8>, c: &mut CrcCheck) -> Vec<u8> {
    match r.below(4) {
        0 | 1 => {
            // the same objects and attributes, in other versions, settings and streams
            let o = NetOpts { frames: 1 + r.usize(5), ops: 1 + r.usize(10), classes: 1 + r.usize(5), rich_header: r.chance(1, 3), rich_body: r.chance(1, 3), ..Default::default() };
            let w = gen::world(r, &o);
            *d = gen::synth_with(r, &o, &w).bytes;
            return gen::synth_with(r, &o, &w).bytes;
        }
        2 => {}
        _ => {
            // one edit, with the checksums made to fit again
            if let Some((h, b, _)) = hostile::layout(d) {
                let mut x = (d[h.0..h.1].to_vec(), d[b.0..b.1].to_vec());
                let t = if r.chance(1, 3) { &mut x.0 } else { &mut x.1 };
                if !t.is_empty() {
                    hostile::flip(r, t, 1)
                }
                let mut y = gen::seal(&x.0, &x.1).0;
                if r.chance(1, 2) && y.len() == d.len() && h.1 + 8 <= d.len() {
                    // of equal sizes and checksum fields, but not equal
                    y[..8].copy_from_slice(&d[..8]);
                    y[h.1..h.1 + 8].copy_from_slice(&d[h.1..h.1 + 8]);
                    *c = CrcCheck::Never;
                }
                return y;
            }
        }
    }
    d.clone()
}
/// two files in a row are often related
fn batch_input(seed: u64, k: u64) -> (Vec<u8>, CrcCheck, NetworkParse) {
    let (mut d, mut c, n) = batch_one(seed, k & !1);
    let mut r = Rng::new(mix(seed ^ mix(k | 1)));
    if r.chance(1, 2) {
        let e = related(&mut r, &mut d, &mut c);
        if k & 1 == 1 {
            d = e
        }
        let n = if r.chance(1, 2) { n } else { *[n, *r.pick(&NETS)].get((k & 1) as usize).unwrap() };
        return (d, c, n);
    }
    if k & 1 == 1 {
        return batch_one(seed, k);
    }
    (d, c, n)
}
fn batch_one(seed: u64, k: u64) -> (Vec<u8>, CrcCheck, NetworkParse) {
    let mut r = Rng::new(mix(seed ^ mix(k)));
    let kind = *r.pick(&[1usize, 2, 3, 4, 5, 6, 6, 8, 11, 12, 13, 15]);
    let d = match r.below(20) {
        0..=9 => rich(&mut r, false).bytes,
        10 | 11 => hostile::stray_prop(&mut r),
        12 => {
            // around the depth where nesting is no longer followed, wherever that is
            let (depth, structs) = (1 + r.usize(130), *r.pick(&[0, 2, 4]));
            crate::gen::seal(&hostile::nested(&mut r, depth, structs), &[0; 40]).0
        }
        _ => hostile::generate(&mut r, kind),
    };
    (d, *r.pick(&CRCS), *r.pick(&NETS))
}
const PER: u64 = 40;
fn digest_line(seed: u64, k: u64) -> (u64, bool) {
    let (d, c, n) = batch_input(seed, k);
    match crate::run::catch(|| {
        let mut b = ParserBuilder::new(&d);
        // at times what is the default anyway is left for the library to choose
        if c != CrcCheck::OnError || k % 3 == 0 {
            b = b.with_crc_check(c)
        }
        if n != NetworkParse::IgnoreOnError || k % 3 == 1 {
            b = b.with_network_parse(n)
        }
        let x = b.parse();
        (hash(print(&x).as_bytes()), x.is_ok())
    }) {
        Ok(x) => x,
        // a panic is C01's to judge, and its message names source lines
        Err(_) => (0, false),
    }
}
/// `vh digest SEED COUNT`
pub fn digest(seed: u64, n: u64) {
    crate::run::install_hook();
    // same stack as everywhere else
    std::thread::spawn(move || {
        // in the other order, lest one leave something for the next
        let v: Vec<u64> = (0..n).rev().map(|k| digest_line(seed, k).0).collect();
        for (k, x) in v.into_iter().rev().enumerate() {
            println!("{k} {x:x}");
        }
    })
    .join()
    .unwrap();
}
fn other(ctx: &mut Ctx, exe: &std::path::Path, seed: u64, what: &str, here: &[u64]) {
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("digest").arg(seed.to_string()).arg(PER.to_string());
    // whatever surrounds the process
    if seed & 1 == 0 {
        cmd.env_clear();
    }
    if seed & 2 == 0 {
        cmd.current_dir("/");
    }
    let around = ["", "C", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "ja_JP.SJIS", "ar_EG"][(seed >> 2) as usize % 6];
    if !around.is_empty() {
        for k in ["LC_ALL", "LC_NUMERIC", "LC_CTYPE", "LANG", "LANGUAGE"] {
            cmd.env(k, around);
        }
        cmd.env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent").env("USER", "someone").env("TMPDIR", "/nonexistent").env("COLUMNS", "20");
        cmd.env("NO_COLOR", "1").env("RUST_LOG", "trace").env("DEBUG", "1");
    }
    let o = cmd.env("RUST_BACKTRACE", if seed & 1 == 0 { "1" } else { "0" }).output();
    let o = match o {
        Ok(o) if o.status.success() => o,
        o => panic!("digest in another process failed: {o:?}"),
    };
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let v: Vec<u64> = t.lines().filter_map(|l| u64::from_str_radix(l.split(' ').nth(1)?, 16).ok()).collect();
    if v.len() != here.len() {
        panic!("digest printed {} lines", v.len());
    }
    for (k, (a, b)) in here.iter().zip(&v).enumerate() {
        if *a == 0 || *b == 0 {
            continue;
        }
        ctx.hit(format!("results compared across {what}"));
        if a != b {
            let (d, c, n) = batch_input(seed, k as u64);
            ctx.bad(format!("across {what}"), format!("a different result in another of two {what} ({c:?}, {n:?})"), Some(&d));
            return;
        }
    }
}
fn c19(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let good = corpus::good();
    if (i as usize) < good.len() {
        let (n, d) = &good[i as usize];
        let n = n.clone();
        let Some(a) = ctx.guard("parse", d, || opts(d, CrcCheck::Always, NetworkParse::IgnoreOnError)) else { return };
        let Some(b) = ctx.guard("parse", d, || opts(d, CrcCheck::Always, NetworkParse::IgnoreOnError)) else { return };
        ctx.hit("real replays");
        ctx.eval(n.as_bytes(), true);
        if let Some(x) = eq(&a, &b) {
            ctx.bad(format!("real:{n}"), format!("{n} parsed twice: {x}"), None);
        }
        if d.len() < 200_000 {
            let v: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4).map(|_| s.spawn(|| crate::run::catch(|| opts(d, CrcCheck::Always, NetworkParse::IgnoreOnError)))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            ctx.add("concurrent parses", 4);
            for x in v.into_iter().flatten() {
                if let Some(x) = eq(&a, &x) {
                    ctx.bad(format!("real:{n}"), format!("{n} parsed in four threads: {x}"), None);
                }
            }
        }
        return;
    }
    if i % 128 == 100 {
        let seed = r.u64() >> 1;
        let here: Vec<(u64, bool)> = (0..PER).map(|k| digest_line(seed, k)).collect();
        ctx.add("ok", here.iter().filter(|x| x.1).count() as u64);
        let here: Vec<u64> = here.into_iter().map(|x| x.0).collect();
        ctx.eval(&seed.to_le_bytes(), true);
        other(ctx, &std::env::current_exe().unwrap(), seed, "processes", &here);
        if let Ok(p) = std::env::var("VH_OTHER") {
            other(ctx, std::path::Path::new(&p), seed, "builds", &here);
        }
        return;
    }
    let (mut d, mut c, n) = batch_input(r.u64(), 0);
    // the other file: unrelated, or close to the first so that anything kept from it would fit
    let near = if r.chance(2, 3) { Some(related(&mut r, &mut d, &mut c)) } else { None };
    let d = d;
    let Some(first) = ctx.guard("parse", &d, || opts(&d, c, n)) else { return };
    ctx.hit(if first.is_ok() { "ok" } else { "refused" });
    ctx.eval(&d, true);
    let base = print(&first);
    // after other work
    let (mut e, c2, n2) = batch_input(r.u64(), 1);
    if let Some(x) = near {
        ctx.hit("after a related file");
        e = x;
    }
    if ctx.guard("parse", &e, || opts(&e, c2, n2).is_ok()).is_none() {
        return;
    }
    let Some(again) = ctx.guard("parse", &d, || opts(&d, c, n)) else { return };
    ctx.hit("repeated");
    if print(&again) != base {
        return ctx.bad("repeated", format!("second parse differs: {:?}", eq(&first, &again)), Some(&d));
    }
    // elsewhere
    for k in 0..2 {
        let off = 1 + r.usize(9) + k;
        let mut buf = r.bytes(off);
        buf.extend_from_slice(&d);
        buf.extend(r.bytes(24));
        let Some(x) = ctx.guard("parse", &d, || opts(&buf[off..off + d.len()], c, n)) else { return };
        ctx.hit("relocated");
        if print(&x) != base {
            return ctx.bad("relocated", format!("result depends on where the bytes are: {:?}", eq(&first, &x)), Some(&d));
        }
    }
    // the same memory, holding something else in between
    if i % 2 == 0 {
        let mut buf = d.clone();
        let edit = r.chance(1, 2);
        for k in 0..buf.len() {
            buf[k] = if edit { d[k] } else { e.get(k).copied().unwrap_or(0) };
        }
        if edit && !buf.is_empty() {
            hostile::flip(&mut r, &mut buf, 2);
        }
        let Some(x) = ctx.guard("parse", &d, || opts(&buf, c, n)) else { return };
        let other = buf.clone();
        let Some(y) = ctx.guard("parse", &d, || opts(&other, c, n)) else { return };
        if print(&x) != print(&y) {
            return ctx.bad("in place", format!("the same bytes at two addresses: {:?}", eq(&x, &y)), Some(&other));
        }
        buf.copy_from_slice(&d);
        let Some(x) = ctx.guard("parse", &d, || opts(&buf, c, n)) else { return };
        ctx.hit("overwritten in place");
        if print(&x) != base {
            return ctx.bad("in place", format!("depends on what was in the same memory before: {:?}", eq(&first, &x)), Some(&d));
        }
    }
    // results that print alike compare as equal
    let same = match (&first, &again) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if same {
        ctx.hit("compared as equal")
    } else if !base.contains("NaN") {
        return ctx.bad("equality", format!("two results that print alike compare as different: {base:.600}"), Some(&d));
    }
    if i % 3 == 0 {
        let v: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..6)
                .map(|k| {
                    let (d, e) = (&d, &e);
                    s.spawn(move || {
                        crate::run::catch(|| {
                            let mut v = vec![];
                            for j in 0..3 {
                                if (j + k) % 3 == 1 {
                                    let _ = opts(e, c2, n2);
                                } else {
                                    v.push(print(&opts(d, c, n)));
                                }
                            }
                            v
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in v.into_iter().flatten().flatten() {
            ctx.hit("concurrent parses");
            if x != base {
                return ctx.bad("concurrent", "result differs when other threads parse at the same time", Some(&d));
            }
        }
    }
    ctx.sample(|| json!({"bytes": d.len(), "crc": format!("{c:?}"), "network": format!("{n:?}"), "ok": first.is_ok()}));
}
