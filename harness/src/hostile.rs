//! Inputs that are not (quite) replays.
use crate::corpus;
use crate::gen::{self, seal, ByteW, NetOpts, Synth};
use crate::mini::Mini;
use crate::rng::Rng;
use boxcars::HeaderProp;

pub const KINDS: [&str; 20] = [
    "noise", "edited synthetic", "edited synthetic, resealed", "length fields overwritten", "truncated", "network noise",
    "network edited", "nested header", "large lists", "edited real replay", "real network edited", "odd header integers",
    "odd cache", "frame count", "real replay truncated", "spliced", "odd names",
    "extreme attribute values", "stray properties", "odd keys",
];

pub fn edge_i32(r: &mut Rng, len: usize) -> i32 {
    let l = len as i64;
    let c = [
        -1, 0, 1, i32::MAX as i64, i32::MIN as i64, 25_000, 25_001, 10_000, 10_001, -10_000, -10_001, 1024, 1025, -512, -513, l, l - 1, l + 1,
        l / 2, -l, 0x7fff, 0x8000, 0x1000_0000, 0x4000_0000, -0x4000_0000, 24_999, 255, 256, 2, 3,
    ];
    if r.chance(1, 4) {
        r.i32e()
    } else {
        *r.pick(&c) as i32
    }
}
pub fn flip(r: &mut Rng, d: &mut [u8], n: usize) {
    if d.is_empty() {
        return;
    }
    for _ in 0..n {
        let i = r.usize(d.len());
        match r.below(4) {
            0 => d[i] = r.u8(),
            1 => d[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
            _ => d[i] ^= 1 << r.below(8),
        }
    }
}
/// edit a blob: flips, integers, removal, duplication, insertion
pub fn edit(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..1 + r.usize(3) {
        if d.len() < 8 {
            d.extend(r.bytes(8));
        }
        let n = d.len();
        match r.below(8) {
            0..=2 => {
                let k = 1 + r.usize(4);
                flip(r, d, k)
            }
            3 | 4 => {
                let at = r.usize(n - 4);
                let v = edge_i32(r, n);
                d[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            5 => {
                let a = r.usize(n);
                let l = 1 + r.usize(16.min(n - a));
                d.drain(a..a + l);
            }
            6 => {
                let a = r.usize(n);
                let k = r.usize(12) + 1;
                let x = r.bytes(k);
                d.splice(a..a, x);
            }
            _ => {
                let a = r.usize(n);
                let l = 1 + r.usize((n - a).min(64));
                let x = d[a..a + l].to_vec();
                let b = r.usize(n);
                d.splice(b..b, x);
            }
        }
    }
}
/// positions in the body of 4-byte integers that look like small counts or lengths
fn counts(d: &[u8]) -> Vec<usize> {
    (0..d.len().saturating_sub(4))
        .filter(|i| {
            let v = i32::from_le_bytes(d[*i..i + 4].try_into().unwrap());
            (-200..2000).contains(&v) && v != 0
        })
        .collect()
}

pub fn some_synth(r: &mut Rng) -> Synth {
    let o = NetOpts {
        frames: 1 + r.usize(5),
        ops: 2 + r.usize(8),
        classes: 1 + r.usize(5),
        rich_header: r.chance(1, 2),
        rich_body: r.chance(1, 2),
        ..Default::default()
    };
    gen::synth(r, &o)
}
pub fn parts(s: &Synth) -> (Vec<u8>, Vec<u8>) {
    (s.bytes[s.header_at.0..s.header_at.1].to_vec(), s.bytes[s.content_at.0..s.content_at.1].to_vec())
}
/// (header range, content range, network range) of a file boxcars can frame
pub fn layout(d: &[u8]) -> Option<((usize, usize), (usize, usize), (usize, usize))> {
    let o = crate::refdec::reference(d, boxcars::CrcCheck::Never, boxcars::NetworkParse::Never);
    let n = o.network?;
    Some((o.header_range?, o.content_range?, (n.0, n.0 + n.1.len())))
}
pub fn small_real(r: &mut Rng, limit: usize) -> Option<&'static [u8]> {
    let v: Vec<_> = corpus::good().iter().filter(|x| x.1.len() <= limit).collect();
    if v.is_empty() {
        None
    } else {
        Some(&v[r.usize(v.len())].1)
    }
}

/// like `world`, with cache entries that make little sense
pub fn odd_cache(r: &mut Rng) -> Mini {
    let o = NetOpts { classes: 1 + r.usize(5), ..Default::default() };
    let w = gen::world(r, &o);
    let mut m = Mini { ver: gen::version(r), objects: w.objects, ..Default::default() };
    let n = m.objects.len() as i64;
    for c in &w.caches {
        let mut p: Vec<(i32, i32)> = c.properties.iter().map(|p| (p.object_ind, p.stream_id)).collect();
        for _ in 0..r.usize(3) {
            let sid = *r.pick(&[-1, i32::MAX, i32::MIN, i32::MAX - 1, 1 << 30, 1 << 20, 63, 64, 65, 0, 200, -2]);
            let ob = if r.chance(1, 6) { *r.pick(&[-1, n as i32, i32::MAX, i32::MIN]) } else { r.usize(n as usize) as i32 };
            p.push((ob, sid));
        }
        let key = if r.chance(1, 5) { *r.pick(&[-1, n as i32, i32::MAX, i32::MIN]) } else { c.object_ind };
        m.caches.push((key, p));
    }
    let k = 40 + r.usize(400);
    m.net = frames_noise(r, k, m.objects.len());
    m.props.push(("NumFrames".into(), HeaderProp::Int(r.usize(k) as i32 + 1)));
    m
}

/// bits that start like a stream: plausible times, small actor ids, plausible object ids
pub fn frames_noise(r: &mut Rng, len: usize, objects: usize) -> Vec<u8> {
    let mut b = crate::bitio::BitW::default();
    let biased = r.chance(2, 3);
    while b.b.len() < len {
        if biased {
            b.f32(1.0 + r.usize(100) as f32);
            b.f32(0.03);
            for _ in 0..r.usize(6) {
                b.bit(true);
                b.bits(r.below(4), 9);
                b.bit(false);
                b.bit(true);
                if r.chance(1, 2) {
                    b.bit(true);
                    if r.chance(1, 2) {
                        b.i32(3);
                    }
                    b.bit(true);
                    b.i32(r.usize(objects + 1) as i32);
                } else {
                    b.bit(false);
                    for _ in 0..r.usize(10) {
                        b.bits(r.u64(), 13);
                    }
                }
            }
            b.bit(false);
        } else {
            b.u64(r.u64());
        }
    }
    b.b.truncate(len);
    b.b
}

/// `structs` in 4 levels are structures, the others arrays
pub fn nested(r: &mut Rng, depth: usize, structs: u64) -> Vec<u8> {
    let mut h = ByteW::default();
    h.i32(868);
    h.i32(17);
    h.str("TAGame.Replay_Soccar_TA");
    let mut n = 0;
    for _ in 0..depth {
        h.str("a");
        if r.chance(structs, 4) {
            h.str("StructProperty");
            h.i32(0);
            h.i32(0);
            h.str("S");
        } else {
            h.str("ArrayProperty");
            h.i32(0);
            h.i32(0);
            h.i32(1);
        }
        n += 1;
    }
    for _ in 0..=n {
        h.str("None");
    }
    h.0
}

pub fn generate(r: &mut Rng, kind: usize) -> Vec<u8> {
    match kind {
        0 => {
            let n = r.usize(300);
            r.bytes(n)
        }
        1 => {
            let mut d = some_synth(r).bytes;
            edit(r, &mut d);
            d
        }
        2 => {
            let (mut h, mut c) = parts(&some_synth(r));
            if r.chance(1, 2) {
                edit(r, &mut h)
            } else {
                edit(r, &mut c)
            }
            seal(&h, &c).0
        }
        3 => {
            let (mut h, mut c) = parts(&some_synth(r));
            let t = if r.chance(1, 2) { &mut h } else { &mut c };
            let n = t.len();
            for _ in 0..1 + r.usize(2) {
                let at = {
                    let cs = counts(t);
                    if cs.is_empty() {
                        continue;
                    }
                    *r.pick(&cs)
                };
                let v = edge_i32(r, n);
                t[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            let mut d = seal(&h, &c).0;
            if r.chance(1, 6) {
                let v = edge_i32(r, n);
                let at = if r.chance(1, 2) { 0 } else { 8 + h.len() };
                d[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            d
        }
        4 => {
            let mut d = some_synth(r).bytes;
            let n = r.usize(d.len());
            d.truncate(n);
            d
        }
        5 => {
            let s = some_synth(r);
            let (h, mut c) = parts(&s);
            let k = 30 + r.usize(600);
            let noise = frames_noise(r, k, s.expect.objects.len());
            splice_network(&s, &mut c, noise);
            seal(&h, &c).0
        }
        6 => {
            let s = some_synth(r);
            let (h, mut c) = parts(&s);
            let (a, b) = (s.network_at.0 - s.content_at.0, s.network_at.1 - s.content_at.0);
            let k = 1 + r.usize(3);
            flip(r, &mut c[a..b], k);
            if r.chance(1, 4) {
                let mut n = c[a..b].to_vec();
                let k = r.usize(n.len() + 1);
                n.truncate(k);
                splice_network(&s, &mut c, n);
            }
            seal(&h, &c).0
        }
        7 => {
            let depth = match r.below(4) {
                0 => r.usize(32) + 1,
                1 => 40 + r.usize(400),
                2 => 1000 + r.usize(4000),
                _ => 20_000 + r.usize(60_000),
            };
            let structs = *r.pick(&[0, 0, 2, 3, 4, 4]);
            let h = nested(r, depth, structs);
            seal(&h, &Mini::default().content()).0
        }
        8 => {
            let mut h = ByteW::default();
            h.i32(868);
            h.i32(17);
            h.str("G");
            let v = edge_i32(r, 25_000);
            h.str("a");
            h.str("ArrayProperty");
            h.i32(0);
            h.i32(0);
            h.i32(v);
            let k = r.usize(200);
            for _ in 0..k {
                h.str("None");
            }
            let mut c = ByteW::default();
            for _ in 0..1 + r.usize(12) {
                let v = if r.chance(1, 2) { 0 } else { edge_i32(r, 100) };
                c.i32(v);
            }
            seal(&h.0, &c.0).0
        }
        9 => {
            let Some(d) = small_real(r, 120_000) else { return r.bytes(40) };
            let mut d = d.to_vec();
            edit(r, &mut d);
            d
        }
        10 => {
            let Some(d) = small_real(r, 120_000) else { return r.bytes(40) };
            let Some((_, _, n)) = layout(d) else { return d.to_vec() };
            let mut d = d.to_vec();
            if n.1 > n.0 {
                let k = 1 + r.usize(3);
                flip(r, &mut d[n.0..n.1], k);
            }
            d
        }
        11 => {
            let mut m = Mini { ver: gen::version(r), ..Default::default() };
            if r.chance(1, 3) {
                m.ver = (r.i32e(), r.i32e(), r.i32e());
            }
            m.objects = vec!["TAGame.RBActor_TA".into(), "TAGame.RBActor_TA:ReplicatedRBState".into()];
            m.caches = vec![(0, vec![(1, r.usize(70) as i32)])];
            let k = 20 + r.usize(200);
            m.net = frames_noise(r, k, 2);
            for _ in 0..1 + r.usize(5) {
                let key = *r.pick(&["NumFrames", "MaxChannels", "MatchType", "BuildVersion"]);
                let v = match r.below(4) {
                    0 => HeaderProp::Str(r.pick(&["Lan", "221120.42953.406184", "", "9"]).to_string()),
                    1 => HeaderProp::QWord(r.u64()),
                    _ => HeaderProp::Int(edge_i32(r, k)),
                };
                m.props.push((key.into(), v));
            }
            m.bytes()
        }
        12 => odd_cache(r).bytes(),
        13 => {
            let mut m = Mini::default();
            let k = r.usize(64);
            m.net = vec![0x3f; k];
            let v = match r.below(4) {
                0 => k as i32,
                1 => k as i32 + 1,
                2 => edge_i32(r, k),
                _ => r.usize(k + 1) as i32,
            };
            m.int("NumFrames", v).bytes()
        }
        14 => {
            let Some(d) = small_real(r, 300_000) else { return vec![] };
            let n = r.usize(d.len());
            d[..n].to_vec()
        }
        16 => odd_names(r),
        17 => extreme_attr(r),
        18 => stray_prop(r),
        19 => odd_keys(r),
        _ => {
            let (a, b) = (some_synth(r).bytes, some_synth(r).bytes);
            let i = r.usize(a.len());
            let j = r.usize(b.len());
            let mut d = a[..i].to_vec();
            d.extend_from_slice(&b[j..]);
            d
        }
    }
}
/// object names that look like the ones boxcars takes apart, with characters of every width in
/// every place
pub fn odd_name(r: &mut Rng) -> String {
    const P: &str = "TheWorld:PersistentLevel.";
    let t = crate::model::tables();
    let stadium = *r.pick(&["", "", "stadium_p.", "é.", "x", ".", "a.b.", "TheWorld:", "TheWorld:PersistentLevel.", "TAGame."]);
    let kind = match r.below(4) {
        0 => String::new(),
        1 => r.pick(&t.class_list).0.to_string(),
        _ => r.pick(&crate::model::LEVEL_KINDS).to_string(),
    };
    let mut s: Vec<char> = match r.below(8) {
        6 | 7 => {
            let all: [&str; 3] = [r.pick(&t.attr_list).0, r.pick(&t.class_list).0, r.pick(&t.spawn).0];
            let k = r.usize(3);
            gen::part(r, all[k]).chars().collect()
        }
        0 => r.pick(&t.attr_list).0.chars().collect(),
        1 => r.pick(&t.spawn).0.chars().collect(),
        _ => format!("{stadium}{P}{kind}{}", r.pick(&["", "_1", "_", "1", "x", "_x_1", "\0", "_4294967295", "_4294967296", "_99999999999999999999999", "_-1", "_00"])).chars().collect(),
    };
    for _ in 0..r.usize(4) {
        let c = match r.below(4) {
            0 => *r.pick(&['.', ':', '_', '\0', ' ', '\u{fffd}']),
            1 => *r.pick(&['é', 'ÿ', '€', 'Ž']),
            _ => gen::rand_char(r),
        };
        let n = s.len();
        match r.below(3) {
            _ if n == 0 => s.push(c),
            0 => s[r.usize(n)] = c,
            1 => s.insert(r.usize(n + 1), c),
            _ => {
                s.truncate(r.usize(n));
                let pad = r.usize(16);
                s.extend(std::iter::repeat(c).take(pad + 1));
            }
        }
    }
    if r.chance(1, 8) {
        // long enough for whatever shortens names in messages
        let n = if r.chance(1, 4) { 2000 } else { 400 };
        let k = 1 + r.usize(n);
        let t = long_text(r, k);
        let at = if r.chance(1, 2) { s.len() } else { r.usize(s.len() + 1) };
        s.splice(at..at, t.chars());
    }
    s.into_iter().collect()
}
fn utf16_text(w: &mut ByteW, s: &str) {
    let u: Vec<u16> = s.encode_utf16().chain([0]).collect();
    w.i32(-(u.len() as i32));
    for x in u {
        w.raw(&x.to_le_bytes())
    }
}
fn odd_names(r: &mut Rng) -> Vec<u8> {
    let n = 1 + r.usize(40);
    let mut c = ByteW::default();
    c.i32(0);
    c.i32(0);
    let k = 8 + r.usize(100);
    let net = frames_noise(r, k, n);
    c.i32(net.len() as i32);
    c.raw(&net);
    for _ in 0..3 {
        c.i32(0)
    }
    c.i32(n as i32);
    for _ in 0..n {
        let s = odd_name(r);
        utf16_text(&mut c, &s);
    }
    c.i32(0);
    c.i32(0);
    let caches = r.usize(6);
    c.i32(caches as i32);
    for _ in 0..caches {
        c.i32(r.usize(n) as i32);
        c.i32(0);
        c.i32(0);
        let k = r.usize(5);
        c.i32(k as i32);
        for _ in 0..k {
            c.i32(r.usize(n) as i32);
            c.i32(r.usize(70) as i32);
        }
    }
    let mut m = Mini { ver: gen::version(r), ..Default::default() };
    m.props.push(("NumFrames".into(), HeaderProp::Int(1 + r.usize(3) as i32)));
    seal(&m.header(), &c.0).0
}
/// one attribute of a random kind whose bits are extreme numbers
pub fn extreme_attr(r: &mut Rng) -> Vec<u8> {
    let ver = gen::version(r);
    let tag = *r.pick(&crate::model::ALL_TAGS);
    let name = *r.pick(&crate::model::tables().by_tag[&tag]);
    let (mut m, mut s, _) = crate::mini::one_attr(ver, name, r.usize(3) as i32, r.chance(1, 5));
    for p in ["UserColor", "Painted", "TitleID", "SpecialEdition", "TeamEdition"] {
        m.obj(&format!("TAGame.ProductAttribute_{p}_TA"));
    }
    const W: [u32; 26] = [
        0x8000_0000, 0x8000_0001, 0x7fff_ffff, 0x7fff_fffe, 0xffff_ffff, 0xffff_fffe, 0, 1, 2, 3, 512, 513, 1023, 1024, 1025, 0xffff_fe00, 0xffff_fdff,
        0xc000_0000, 0x4000_0000, 0x3fff_ffff, 0xbfff_ffff, 0x0001_0000, 0xffff, 0x7fc0_0000, 0x7f80_0000, 0xff80_0000,
    ];
    for _ in 0..r.usize(3) {
        s.b.bits(r.u64(), *r.pick(&[1u32, 8, 8, 16, 24, 32, 64]));
    }
    for _ in 0..r.usize(10) {
        match r.below(5) {
            0 => s.b.bits(r.u64(), *r.pick(&[1u32, 1, 1, 3, 5, 8])),
            1 => s.b.bits(*r.pick(&[0u64, 1, 2, 4, 11, 255]), 8),
            _ => s.b.bits(*r.pick(&W) as u64, 32),
        }
    }
    for _ in 0..*r.pick(&[0usize, 0, 4, 40, 300]) {
        s.b.bits(r.u64(), 32)
    }
    m.net = s.b.b;
    let n = m.net.len();
    if n == 0 {
        m.net.push(0)
    }
    m.int("NumFrames", 1).bytes()
}
/// classes that appear without a location
fn plain_classes() -> &'static [&'static str] {
    static C: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let t = crate::model::tables();
        let moves = |n: &str| t.spawn.iter().any(|(k, s)| *k == n && *s != crate::model::Spawn::None);
        t.class_list
            .iter()
            .map(|x| x.0)
            .filter(|n| {
                let mut cur = *n;
                loop {
                    if moves(cur) {
                        return false;
                    }
                    match crate::model::parent_of(cur) {
                        Some(p) => cur = p,
                        None => return !n.starts_with("TheWorld:"),
                    }
                }
            })
            .collect()
    })
}
/// text of about `n` characters, none, some or all of them not ASCII
pub fn long_text(r: &mut Rng, n: usize) -> String {
    let style = r.below(4);
    let one = gen::rand_char(r);
    (0..n)
        .map(|_| match style {
            0 => (b'a' + r.usize(26) as u8) as char,
            1 => one,
            2 => *r.pick(&['a', '_', 'é', '€', 'ж', '\u{1f600}']),
            _ => gen::rand_char(r),
        })
        .collect()
}
/// a property name nobody knows
fn odd_prop(r: &mut Rng, long: bool) -> String {
    let k = r.usize(40);
    if long {
        let n = 1 + r.usize(300);
        let t = long_text(r, n);
        if r.chance(1, 2) { format!("TAGame.Odd_TA:{t}{k}") } else { format!("{t}{k}") }
    } else {
        format!("TAGame.Odd_TA:p{k}")
    }
}
/// several classes that declare small stream ids; after some good updates of actors with small and
/// large ids, one names a property its actor's class does not have (or one nobody knows)
pub fn stray_prop(r: &mut Rng) -> Vec<u8> {
    use crate::mini::{Mini, Stream};
    let ver = *r.pick(&[(868, 32, 10), (868, 20, 0), (868, 24, 10), (868, 14, 0), (868, 18, 0)]);
    let mut m = Mini { ver, ..Default::default() };
    let all = plain_classes();
    let many = r.chance(1, 3);
    let n = if many { 12 + r.usize(60) } else { 2 + r.usize(8) };
    let mut classes: Vec<&str> = vec![];
    while classes.len() < n.min(all.len()) {
        let c = *r.pick(all);
        if !classes.contains(&c) {
            classes.push(c)
        }
    }
    let bools = &crate::model::tables().by_tag[&crate::model::Tag::Boolean];
    let top = 2 + r.usize(if many { 3 } else { 7 }) as i32;
    let (odd, long) = (*r.pick(&[0u64, 1, 1, 6, 11]), r.chance(1, 2));
    let mut has: Vec<(i32, Vec<i32>)> = vec![];
    for c in &classes {
        let o = m.obj(c);
        let mut p = vec![];
        let mut good = vec![];
        for sid in 0..top {
            // the largest id is everybody's, so that all classes use the same width
            if sid == top - 1 || r.chance(2, 3) {
                if r.chance(odd, 12) {
                    let name = odd_prop(r, long);
                    p.push((m.obj(&name), sid));
                } else {
                    let name = *r.pick(bools);
                    p.push((m.obj(name), sid));
                    good.push(sid);
                }
            }
        }
        has.push((o, good));
        m.caches.push((o, p));
    }
    let frames = 1 + r.usize(3);
    let mut s = Stream::new(&m, 1023);
    let ids: Vec<i32> = (0..2 + r.usize(4)).map(|_| if r.chance(1, 2) { r.usize(1023) as i32 } else { r.usize(260) as i32 }).collect();
    let mut live: Vec<(i32, usize)> = vec![];
    for f in 0..frames {
        s.frame(1.0 + f as f32, 0.5);
        if f == 0 || r.chance(1, 3) {
            for id in &ids {
                let k = r.usize(has.len());
                s.spawn(*id, has[k].0);
                live.retain(|x| x.0 != *id);
                live.push((*id, k));
            }
        }
        for _ in 0..r.usize(4) {
            let (id, k) = live[r.usize(live.len())];
            if has[k].1.is_empty() {
                continue;
            }
            s.update(id);
            for _ in 0..1 + r.usize(2) {
                s.attr(*r.pick(&has[k].1), top as i64);
                s.b.bit(r.chance(1, 2));
            }
            s.end_update();
        }
        if live.len() > 1 && r.chance(1, 4) {
            let (id, _) = live.swap_remove(r.usize(live.len()));
            s.delete(id);
        }
        if f + 1 < frames {
            s.end_frame()
        }
    }
    if r.chance(1, 6) {
        s.update(if r.chance(1, 2) { 1022 } else { r.usize(1023) as i32 });
    } else {
        let (id, _) = live[r.usize(live.len())];
        s.update(id);
    }
    s.attr(r.usize(top as usize) as i32, top as i64);
    s.b.bits(r.u64(), r.usize(20) as u32);
    for _ in 0..8 {
        s.b.bits(0, 8)
    }
    m.net = s.b.b;
    m.int("NumFrames", frames as i32).bytes()
}
/// bytes of a long text that is not quite UTF-8, terminator included
fn odd_text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.usize(8),
        1 => r.usize(60),
        _ => r.usize(700),
    };
    let mut t = long_text(r, n).into_bytes();
    for _ in 0..r.usize(4) {
        let k = t.len();
        match r.below(5) {
            _ if k == 0 => t.push(0x80),
            0 => t[r.usize(k)] = *r.pick(&[0x80u8, 0xff, 0xc0, 0xed, 0xf4, 0xf8, 0, 0xe0, 0xbf]),
            1 => t.truncate(r.usize(k)),
            2 => {
                let bad: &[u8] = *r.pick(&[&[0xed, 0xa0, 0x80][..], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xff], &[0xc3]]);
                let at = if r.chance(1, 3) { k } else { r.usize(k) };
                t.splice(at..at, bad.iter().copied());
            }
            3 => {
                let x = r.usize(k);
                t[x] = r.u8()
            }
            _ => {}
        }
    }
    t.push(*r.pick(&[0u8, 0, 0, b'x', 0x80, 0xff]));
    t
}
/// keys, kinds and names of all lengths where plain text is expected
fn odd_keys(r: &mut Rng) -> Vec<u8> {
    fn text(r: &mut Rng, w: &mut ByteW, usual: &str) {
        if r.chance(1, 3) {
            let t = odd_text(r);
            let size = match r.below(12) {
                0 => t.len() as i32 + 1,
                1 => -(t.len() as i32 / 2),
                _ => t.len() as i32,
            };
            w.i32(size);
            w.raw(&t);
        } else {
            w.str(usual)
        }
    }
    let mut h = ByteW::default();
    h.i32(868);
    h.i32(17);
    let gt = "TAGame.Replay_Soccar_TA";
    if r.chance(1, 8) { text(r, &mut h, gt) } else { h.str(gt) }
    let count = r.usize(5);
    for k in 0..count {
        if r.chance(1, 3) {
            // what the decoding looks at
            let (key, v) = *r.pick(&[("BuildVersion", "221120.42953.406184"), ("MatchType", "Lan"), ("NumFrames", "1"), ("MaxChannels", "1023")]);
            let v = if r.chance(4, 5) { gen::mangle(r, v) } else { v.to_string() };
            h.str(key);
            h.str(*r.pick(&["StrProperty", "StrProperty", "NameProperty"]));
            h.raw(&[0; 8]);
            crate::mini::put_text(&mut h, &v);
            continue;
        }
        if r.chance(1, 2) { text(r, &mut h, "Key") } else { h.str(&format!("k{k}")) }
        let kind = *r.pick(&["IntProperty", "StrProperty", "NameProperty", "ByteProperty", "ByteProperty", "StructProperty", "QWordProperty"]);
        if r.chance(1, 6) { text(r, &mut h, kind) } else { h.str(kind) }
        h.i32(0);
        h.i32(0);
        match kind {
            "IntProperty" => h.i32(1),
            "QWordProperty" => h.raw(&[1; 8]),
            "ByteProperty" => {
                text(r, &mut h, "OnlinePlatform");
                text(r, &mut h, "OnlinePlatform_Steam");
            }
            "StructProperty" => {
                text(r, &mut h, "S");
                text(r, &mut h, "inner");
                h.str("IntProperty");
                h.i32(0);
                h.i32(0);
                h.i32(5);
                h.str("None");
            }
            _ => text(r, &mut h, "value"),
        }
    }
    h.str("None");
    let mut c = ByteW::default();
    let mut list = |c: &mut ByteW, f: &dyn Fn(&mut ByteW, &mut Rng)| {
        let n = r.usize(4);
        c.i32(n as i32);
        for _ in 0..n {
            f(c, r)
        }
    };
    list(&mut c, &|c, r| text(r, c, "level"));
    c.i32(0);
    c.i32(0);
    list(&mut c, &|c, r| {
        c.i32(3);
        text(r, c, "user");
        text(r, c, "text");
    });
    list(&mut c, &|c, r| {
        text(r, c, "Team0Goal");
        c.i32(1);
    });
    list(&mut c, &|c, r| text(r, c, "package"));
    list(&mut c, &|c, r| text(r, c, "TAGame.RBActor_TA"));
    list(&mut c, &|c, r| text(r, c, "name"));
    list(&mut c, &|c, r| {
        text(r, c, "TAGame.RBActor_TA");
        c.i32(0);
    });
    c.i32(0);
    seal(&h.0, &c.0).0
}
/// a file whose network data lacks its last `n` bytes, with sizes and checksums to match
pub fn shorten_network(d: &[u8], n: usize) -> Option<Vec<u8>> {
    let (h, c, w) = layout(d)?;
    let mut cd = d[c.0..c.1].to_vec();
    let (a, b) = (w.0 - c.0, w.1 - c.0);
    if b - a < n + 1 {
        return None;
    }
    cd.drain(b - n..b);
    cd[a - 4..a].copy_from_slice(&((b - a - n) as i32).to_le_bytes());
    Some(seal(&d[h.0..h.1], &cd).0)
}
/// replaces the network data inside a content section
pub fn splice_network(s: &Synth, c: &mut Vec<u8>, new: Vec<u8>) {
    let (a, b) = (s.network_at.0 - s.content_at.0, s.network_at.1 - s.content_at.0);
    c[a - 4..a].copy_from_slice(&(new.len() as i32).to_le_bytes());
    c.splice(a..b, new);
}
