//! The network stream: frames, actors, attributes, the object hierarchy, spatial values, errors.
use super::bytes::judge;
use super::*;
use crate::bitio::{BitR, BitW};
use crate::corpus;
use crate::gen::{self, seal, AttrCfg, NetOpts, Synth};
use crate::hostile;
use crate::mini::{one_attr, Mini, Stream};
use crate::model::{self, tables, Spawn, Tag, ALL_TAGS};
use crate::refdec::{self, RefErr, V};
use crate::rng::Rng;
use bitter::{BitReader, LittleEndianReader};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};

fn compare(ctx: &mut Ctx, key: &str, s: &Synth) {
    let Some(got) = ctx.guard("parse", &s.bytes, || opts(&s.bytes, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&s.bytes, s.marks.iter().any(|m| matches!(m.1, gen::Mark::Attr(_) | gen::Mark::Spawn)));
    match got {
        Ok(g) => {
            if let Some(x) = frames_diff(&g.network_frames, &s.expect.network_frames, true) {
                ctx.bad(key, format!("version {:?}: {x}", s.version), Some(&s.bytes))
            }
        }
        Err(e) => ctx.bad(key, format!("version {:?}: well-formed stream refused: {e:.300}", s.version), Some(&s.bytes)),
    }
}
fn shown(s: &Synth) -> serde_json::Value {
    let f = &s.expect.network_frames.as_ref().unwrap().frames;
    json!({"version": format!("{:?}", s.version), "frames": f.len(), "max_channels": s.max_channels,
        "spawns": f.iter().map(|x| x.new_actors.len()).sum::<usize>(), "deletes": f.iter().map(|x| x.deleted_actors.len()).sum::<usize>(),
        "updates": f.iter().map(|x| x.updated_actors.len()).sum::<usize>(), "network_bits": s.net_bits})
}

// ------------------------------------------------------------------ C09 network policy

pub static C09: Prop = Prop {
    id: "C09",
    quick: 200_000,
    thorough: 2_000_000,
    run: c09,
    rule: "a case is one file parsed under every network policy (and several checksum policies and builder spellings); the results are related to each other and to the reference decoder's verdict on the network data",
    need: &[("network good: frames under Always and IgnoreOnError", 2500), ("network bad: error under Always, dropped under IgnoreOnError", 2500), ("no NumFrames: no frames", 150), ("file bad under every policy", 150), ("builder spelled two ways", 5000), ("real replays", 100)],
    assumptions: &[],
};
fn c09(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let good = corpus::good();
    let real = (i as usize) < good.len();
    let d: Vec<u8> = if real {
        ctx.hit("real replays");
        good[i as usize].1.clone()
    } else {
        match i % 8 {
            0 | 1 => hostile::some_synth(&mut r).bytes,
            2 => {
                // nothing announces frames
                let mut m = Mini::default();
                m.objects = vec!["TAGame.RBActor_TA".into()];
                let k = r.usize(50);
                m.net = r.bytes(k);
                match r.below(3) {
                    0 => m.props.push(("NumFrames".into(), HeaderProp::Str("3".into()))),
                    1 => m.props.push(("numframes".into(), HeaderProp::Int(3))),
                    _ => {}
                }
                m.bytes()
            }
            3 => hostile::generate(&mut r, 3),
            4 => hostile::generate(&mut r, 5),
            5 => hostile::generate(&mut r, 13),
            6 => hostile::generate(&mut r, 12),
            _ => hostile::generate(&mut r, 6),
        }
    };
    let inp = if real { &[][..] } else { &d[..] };
    // for an undamaged or resealed file the checksum policy changes nothing
    let mut all = vec![];
    for n in NETS {
        let c = *r.pick(&CRCS);
        let c = if i % 8 == 3 { CrcCheck::Never } else { c };
        let Some(g) = ctx.guard("parse", &d, || opts(&d, c, n)) else { return };
        all.push(g);
    }
    ctx.eval(&d, true);
    let want = refdec::reference(&d, CrcCheck::Never, NetworkParse::IgnoreOnError);
    if want.depth > NEST_OK {
        return;
    }
    let (always, ignore, never) = (&all[0], &all[1], &all[2]);
    let bad = |ctx: &mut Ctx, k: &str, m: String| ctx.bad(k, m, if inp.is_empty() { None } else { Some(inp) });
    let net_ok = match &want.result {
        Err(_) => {
            if all.iter().any(|x| x.is_ok()) {
                bad(ctx, "undecodable", format!("a file that does not decode is accepted: always {} ignore {} never {}", always.is_ok(), ignore.is_ok(), never.is_ok()))
            } else if all.iter().any(|e| net_error(e.as_ref().unwrap_err()).is_some()) {
                bad(ctx, "undecodable", "a header or body error is reported as a network error".into())
            } else {
                ctx.hit("file bad under every policy")
            }
            return;
        }
        Ok(x) => x.network_frames.is_some(),
    };
    let (Ok(ig), Ok(ne)) = (ignore, never) else {
        return bad(ctx, "dropped", format!("header and body decode, but: ignore {:.200?}, never {:.200?}", ignore.as_ref().err(), never.as_ref().err()));
    };
    if ne.network_frames.is_some() {
        bad(ctx, "never", "frames returned although network parsing was off".into())
    }
    if let Some(x) = outer_diff(ig, ne) {
        bad(ctx, "independent", format!("the network policy changes the rest of the result: {x}"))
    }
    match (net_ok, always) {
        (true, Ok(al)) => {
            if let Some(x) = replay_diff(al, ig, false) {
                bad(ctx, "agree", format!("Always and IgnoreOnError disagree on good network data: {x}"))
            }
            match &al.network_frames {
                None => bad(ctx, "frames", "good network data, yet no frames under Always".into()),
                Some(f) if want.hdr.as_ref().unwrap().int("NumFrames").is_none() => {
                    if f.frames.is_empty() {
                        ctx.hit("no NumFrames: no frames")
                    } else {
                        bad(ctx, "frames", "frames although the header announces none".into())
                    }
                }
                _ => ctx.hit("network good: frames under Always and IgnoreOnError"),
            }
            if let Some(x) = outer_diff(al, ne) {
                bad(ctx, "independent", format!("the network policy changes the rest of the result: {x}"))
            }
        }
        (false, Err(e)) => {
            if net_error(e).is_none() {
                bad(ctx, "kind", format!("network data error reported as {e:?}"))
            }
            if ig.network_frames.is_some() {
                bad(ctx, "partial", "undecodable network data, yet frames under IgnoreOnError".into())
            }
            ctx.hit("network bad: error under Always, dropped under IgnoreOnError");
        }
        (true, Err(e)) => bad(ctx, "refused", format!("good network data refused under Always: {e:.300}")),
        (false, Ok(_)) => bad(ctx, "accepted", "undecodable network data accepted under Always".into()),
    }
    // spellings
    let k = r.usize(3);
    let (spelled, how) = spell(&mut r, &d, CrcCheck::Never, NETS[k]);
    let Some(g) = ctx.guard("parse", &d, || spelled.parse()) else { return };
    ctx.hit("builder spelled two ways");
    let same = match (&g, &all[k]) {
        (Ok(a), Ok(b)) => loose(a, b),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !same {
        bad(ctx, "builder", format!("{how} is not the same as {:?}", NETS[k]))
    }
    ctx.sample(|| json!({"bytes": d.len(), "always": always.is_ok(), "frames_under_ignore": ig.network_frames.as_ref().map(|f| f.frames.len())}));
}

// ------------------------------------------------------------------ C10 frames and actors

pub static C10: Prop = Prop {
    id: "C10",
    quick: 400_000,
    thorough: 5_000_000,
    run: c10,
    rule: "a case is a network stream of known frames, spawns, deletions and updates (or a bundled real replay against the reference decoder); the decoded frames are compared element by element, in order",
    need: &[("frames compared", 30_000), ("spawns compared", 20_000), ("deletions compared", 5_000), ("updates compared", 20_000), ("real replays compared", 100), ("stream ended by the all-zero frame", 2_000), ("lifecycle: update of an actor that is not there refused", 400), ("lifecycle: respawn with another class", 200), ("actor ids at 200 and above", 2_000), ("crowds", 50), ("streams of hundreds of frames", 20)],
    assumptions: &["generated streams are written by the harness' own encoder; real ones are compared with its reference decoder"],
};
fn c10(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let good = corpus::good();
    if (i as usize) < good.len() {
        let (n, d) = &good[i as usize];
        if d.len() > 2_500_000 && !ctx.thorough() {
            return;
        }
        let Some((got, want)) = both(ctx, d, CrcCheck::OnError, NetworkParse::Always) else { return };
        ctx.eval(d, true);
        ctx.hit("real replays compared");
        ctx.add("real network events compared", want.trace.ev.len() as u64);
        match (&got, &want.result) {
            (Ok(a), Ok(b)) => {
                if let Some(x) = replay_diff(a, b, false) {
                    ctx.bad(format!("real:{n}"), format!("{n}: {x}"), None)
                }
            }
            (Err(a), Ok(_)) => ctx.bad(format!("real:{n}"), format!("{n}: refused: {a:.300}"), None),
            (Ok(_), Err(b)) => ctx.bad(format!("real:{n}"), format!("{n}: accepted, reference says {b:.300?}"), None),
            (Err(_), Err(_)) => {}
        }
        return;
    }
    if i % 8 == 7 {
        return lifecycle(ctx, &mut r);
    }
    if i % 1600 == 500 {
        return crowd(ctx, &mut r);
    }
    let long = i % 800 == 300;
    let cheap = [Tag::Boolean, Tag::Byte, Tag::Int, Tag::Enum, Tag::FlaggedByte, Tag::ActiveActor, Tag::RotationTag];
    let o = NetOpts {
        frames: if long { 250 + r.usize(1500) } else { 1 + r.usize(8) },
        ops: if long { r.usize(3) } else { 2 + r.usize(20) },
        classes: 1 + r.usize(4),
        tags: if long || r.chance(2, 3) { cheap.to_vec() } else { vec![] },
        ..Default::default()
    };
    let s = gen::synth(&mut r, &o);
    for f in &s.expect.network_frames.as_ref().unwrap().frames {
        ctx.hit("frames compared");
        ctx.add("spawns compared", f.new_actors.len() as u64);
        ctx.add("deletions compared", f.deleted_actors.len() as u64);
        ctx.add("updates compared", f.updated_actors.len() as u64);
        ctx.add("actor ids at 200 and above", f.new_actors.iter().filter(|a| a.actor_id.0 >= 200).count() as u64);
    }
    if s.end_marker {
        ctx.hit("stream ended by the all-zero frame")
    }
    if long {
        ctx.hit("streams of hundreds of frames")
    }
    ctx.hit(format!("max channels of {} bits", 32 - s.max_channels.leading_zeros()));
    compare(ctx, "frames", &s);
    ctx.sample(|| shown(&s));
}
/// Many actors at once, and very many events of one kind in a frame.
fn crowd(ctx: &mut Ctx, r: &mut Rng) {
    let mut m = Mini { ver: gen::version(r), ..Default::default() };
    let a = m.obj("TAGame.CrowdManager_TA"); // spawned with nothing
    let b = m.obj("TAGame.Cannon_TA"); // with a location, as it is an actor
    m.obj("Engine.Actor");
    let byte = m.obj("TAGame.CarComponent_TA:ReplicatedActive");
    let boolean = m.obj("Engine.Actor:bHidden");
    let sid = r.usize(80) as i32;
    m.caches.push((a, vec![(byte, sid)]));
    m.caches.push((b, vec![(boolean, sid)]));
    let mc: u32 = *r.pick(&[1023, 2047, 4096, 20_000, 65_536, 65_537, 100_000, 1 << 20]);
    m.props.push(("MaxChannels".into(), HeaderProp::Int(mc as i32)));
    let mut s = Stream::new(&m, mc);
    let net = m.v().2;
    let big = *r.pick(&[256usize, 257, 1000, 4096, 5000, 32_768, 65_535, 65_536, 65_537, 70_000, 140_000]);
    let many = r.usize(4);
    // one update of very many properties
    let burst = if r.chance(1, 2) { *r.pick(&[200usize, 255, 256, 257, 300, 1000, 4097, 33_000, 65_537]) } else { 0 };
    let mut burst_at = r.usize(300);
    let mut alive: HashMap<i32, i32> = HashMap::new();
    let mut frames: Vec<Frame> = vec![];
    let n = 2 + r.usize(3);
    for k in 0..n {
        let mut f = Frame { time: 1.0 + k as f32, delta: 0.25, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
        s.frame(f.time, f.delta);
        // first of all everybody appears
        let events = if k == 0 { (mc as usize).min(big) } else if k == n - 1 { big } else { r.usize(2000) };
        let only = r.chance(2, 3);
        for e in 0..events {
            let id = if k == 0 { if mc as usize > big && e % 2 == 1 { mc as i32 - e as i32 } else { e as i32 } } else { r.below(mc as u64) as i32 };
            let what = if k == 0 { 0 } else if k == n - 1 && only { many } else { r.usize(5) };
            match what {
                0 => {
                    let o = if r.chance(1, 2) { a } else { b };
                    s.spawn(id, o);
                    let location = if o == b { Some(gen::enc_vec(r, &mut s.b, net)) } else { None };
                    alive.insert(id, o);
                    f.new_actors.push(NewActor { actor_id: ActorId(id), name_id: if s.named { Some(7) } else { None }, object_id: ObjectId(o), initial_trajectory: Trajectory { location, rotation: None } });
                }
                1 => {
                    s.delete(id);
                    alive.remove(&id);
                    f.deleted_actors.push(ActorId(id));
                }
                _ => {
                    let Some(o) = alive.get(&id).copied() else { continue };
                    s.update(id);
                    let n = if burst > 0 && burst_at == 0 {
                        ctx.max("crowd: properties in one update", burst as u64);
                        burst
                    } else if what == 2 {
                        1
                    } else {
                        r.usize(4)
                    };
                    burst_at = burst_at.wrapping_sub(1);
                    for _ in 0..n {
                        s.attr(sid, sid as i64 + 1);
                        let (attribute, ob) = if o == a {
                            let v = r.u8();
                            s.b.u8(v);
                            (Attribute::Byte(v), byte)
                        } else {
                            let v = r.chance(1, 2);
                            s.b.bit(v);
                            (Attribute::Boolean(v), boolean)
                        };
                        f.updated_actors.push(UpdatedAttribute { actor_id: ActorId(id), stream_id: StreamId(sid), object_id: ObjectId(ob), attribute });
                    }
                    s.end_update();
                }
            }
        }
        s.end_frame();
        ctx.max("crowd: events of one kind in a frame", f.new_actors.len().max(f.deleted_actors.len()).max(f.updated_actors.len()) as u64);
        ctx.max("crowd: actors alive", alive.len() as u64);
        frames.push(f);
    }
    s.b.u64(r.u64());
    m.net = s.b.b.clone();
    let d = m.int("NumFrames", n as i32).bytes();
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&d, true);
    ctx.hit("crowds");
    let keep = if d.len() < 1 << 20 { Some(&d[..]) } else { None };
    match got {
        Ok(g) => {
            if let Some(x) = frames_diff(&g.network_frames, &Some(NetworkFrames { frames }), true) {
                ctx.bad("crowd", x, keep)
            }
        }
        Err(e) => ctx.bad("crowd", format!("valid history refused: {e:.300}"), keep),
    }
}
/// Histories of one or two actors whose outcome follows from the lifecycle rules alone.
fn lifecycle(ctx: &mut Ctx, r: &mut Rng) {
    let mut m = Mini { ver: gen::version(r), ..Default::default() };
    let a = m.obj("TAGame.RBActor_TA"); // spawned with location and rotation
    let b = m.obj("TAGame.CrowdManager_TA"); // spawned with nothing
    let at = m.obj("TAGame.Car_TA:TeamPaint"); // unused
    let byte = m.obj("TAGame.CarComponent_TA:ReplicatedActive");
    let boolean = m.obj("Engine.Actor:bHidden");
    let _ = at;
    assert_eq!(tables().attr["TAGame.CarComponent_TA:ReplicatedActive"], Tag::Byte);
    assert_eq!(tables().attr["Engine.Actor:bHidden"], Tag::Boolean);
    // the same stream id means another attribute in the other class
    let sid = r.usize(80) as i32;
    m.caches.push((a, vec![(byte, sid)]));
    m.caches.push((b, vec![(boolean, sid)]));
    let mc: u32 = *r.pick(&[1023, 2047, 400, 201, 256, 5, 100_000]);
    m.props.push(("MaxChannels".into(), HeaderProp::Int(mc as i32)));
    let mut s = Stream::new(&m, mc);
    let net = m.v().2;
    let ids: Vec<i32> = (0..3).map(|_| gen::actor_id(r, mc) as i32).collect();
    let mut alive: BTreeMap<i32, i32> = BTreeMap::new();
    let mut ever: HashSet<i32> = HashSet::new();
    let mut frames: Vec<Frame> = vec![];
    let mut fail: Option<FrameError> = None;
    let n = 1 + r.usize(4);
    let mut respawns = 0;
    'f: for k in 0..n {
        let mut f = Frame { time: 1.0 + k as f32, delta: 0.25, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
        s.frame(f.time, f.delta);
        for _ in 0..1 + r.usize(6) {
            let id = *r.pick(&ids);
            match r.below(7) {
                0..=2 => {
                    let o = if r.chance(1, 2) { a } else { b };
                    s.spawn(id, o);
                    let t = if o == a {
                        let location = Some(gen::enc_vec(r, &mut s.b, net));
                        let rotation = Some(gen::enc_rot(r, &mut s.b));
                        Trajectory { location, rotation }
                    } else {
                        Trajectory { location: None, rotation: None }
                    };
                    if let Some(x) = alive.insert(id, o) {
                        if x != o {
                            respawns += 1
                        }
                    }
                    ever.insert(id);
                    f.new_actors.push(NewActor { actor_id: ActorId(id), name_id: if s.named { Some(7) } else { None }, object_id: ObjectId(o), initial_trajectory: t });
                }
                3 => {
                    s.delete(id);
                    alive.remove(&id);
                    f.deleted_actors.push(ActorId(id));
                }
                _ => {
                    let Some(o) = alive.get(&id).copied() else {
                        if r.chance(1, 6) {
                            // not there: never spawned, or deleted
                            s.update(id);
                            s.attr(sid, sid as i64 + 1);
                            s.b.u8(0);
                            fail = Some(FrameError::MissingActor { actor: ActorId(id) });
                            break 'f;
                        }
                        continue;
                    };
                    s.update(id);
                    for _ in 0..r.usize(3) {
                        s.attr(sid, sid as i64 + 1);
                        let (attribute, ob) = if o == a {
                            let v = r.u8();
                            s.b.u8(v);
                            (Attribute::Byte(v), byte)
                        } else {
                            let v = r.chance(1, 2);
                            s.b.bit(v);
                            (Attribute::Boolean(v), boolean)
                        };
                        f.updated_actors.push(UpdatedAttribute { actor_id: ActorId(id), stream_id: StreamId(sid), object_id: ObjectId(ob), attribute });
                    }
                    s.end_update();
                }
            }
        }
        s.end_frame();
        frames.push(f);
    }
    // what follows the announced frames is not looked at
    s.b.u64(r.u64());
    s.b.u64(r.u64());
    m.net = s.b.b.clone();
    let announced = n as i32;
    let d = m.int("NumFrames", announced).bytes();
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&d, true);
    if respawns > 0 {
        ctx.hit("lifecycle: respawn with another class")
    }
    match (fail, got) {
        (None, Ok(g)) => {
            if let Some(x) = frames_diff(&g.network_frames, &Some(NetworkFrames { frames }), true) {
                ctx.bad("lifecycle", x, Some(&d))
            }
        }
        (None, Err(e)) => ctx.bad("lifecycle", format!("valid history refused: {e:.300}"), Some(&d)),
        (Some(w), Ok(_)) => ctx.bad("lifecycle", format!("update of an actor that is not there accepted ({w:?}, spawned before: {ever:?})"), Some(&d)),
        (Some(w), Err(e)) => match net_error(&e) {
            Some(NetworkError::FrameError(x, _)) if *x == w => ctx.hit("lifecycle: update of an actor that is not there refused"),
            _ => ctx.bad("lifecycle", format!("expected {w:?}, got {e:.300}"), Some(&d)),
        },
    }
}

// ------------------------------------------------------------------ C11 attribute values

pub static C11: Prop = Prop {
    id: "C11",
    quick: 44 * 45 * 200,
    thorough: 44 * 45 * 1500,
    run: c11,
    rule: "a case is a stream of updates of one attribute kind in one protocol version, with generated values; every decoded value is compared field by field",
    need: &[("attribute values compared", 60_000), ("attribute kinds x versions", 44 * 45 * 5)],
    assumptions: &["the value encodings are the harness' own, per attribute kind and version"],
};
fn c11(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let t = ALL_TAGS[(i % 44) as usize];
    let v = gen::VERSIONS[(i / 44 % 45) as usize];
    let o = NetOpts { frames: 2, ops: 12, classes: 1 + r.usize(3), tags: vec![t], version: Some(v), ..Default::default() };
    let mut s = gen::synth(&mut r, &o);
    for _ in 0..5 {
        if !s.tags.is_empty() {
            break;
        }
        s = gen::synth(&mut r, &o);
    }
    let n = s.tags.get(&t).copied().unwrap_or(0);
    ctx.add("attribute values compared", n as u64);
    if n > 0 {
        ctx.hit("attribute kinds x versions");
        ctx.add(format!("{t:?}"), n as u64);
    }
    compare(ctx, &format!("{t:?}"), &s);
    ctx.sample(|| json!({"kind": format!("{t:?}"), "version": format!("{v:?}"), "values": n}));
}

// ------------------------------------------------------------------ C12 hierarchy

pub static C12: Prop = Prop {
    id: "C12",
    quick: 800_000,
    thorough: 8_000_000,
    run: c12,
    rule: "a case is an object list and class net cache (inheritance, overrides, duplicates, level-placed names, gaps, any number of stream ids) with a stream that exercises the resulting attribute tables and spawn kinds; decoded frames are compared",
    need: &[("generated worlds", 5_000), ("every stream id width", 20), ("stream ids checked", 20_000), ("inheritance chains checked", 1_500), ("level-placed names checked", 1_000), ("spawn kinds: none", 1500), ("spawn kinds: location", 1500), ("spawn kinds: location and rotation", 1500)],
    assumptions: &["class parents, attribute kinds and spawn kinds are those of harness/data, extracted from the pinned tree"],
};
fn c12(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    match i % 8 {
        5 => return widths(ctx, i / 8, &mut r),
        6 => return chain(ctx, &mut r),
        7 => return level(ctx, &mut r),
        _ => {}
    }
    let simple = [Tag::Boolean, Tag::Byte, Tag::Int, Tag::Float, Tag::Enum, Tag::Int64, Tag::FlaggedByte, Tag::PlayerHistoryKey];
    let o = NetOpts { frames: 3, ops: 16, classes: 1 + r.usize(9), tags: simple.to_vec(), ..Default::default() };
    let s = gen::synth(&mut r, &o);
    ctx.hit("generated worlds");
    for w in &s.widths {
        ctx.hit(format!("stream id width {w}"));
    }
    for (k, n) in ["spawn kinds: none", "spawn kinds: location", "spawn kinds: location and rotation"].iter().zip(s.spawns) {
        ctx.add(*k, n as u64)
    }
    compare(ctx, "world", &s);
    ctx.sample(|| shown(&s));
}
/// an object whose largest stream id is `max - 1`, and updates with ids all over that range
fn widths(ctx: &mut Ctx, k: u64, r: &mut Rng) {
    let max: i32 = match k % 3 {
        0 => (k / 3 % 300) as i32 + 1,
        1 => {
            let p = 1i32 << (k / 3 % 30);
            (p + r.range(-2, 3) as i32).max(1)
        }
        _ => 1 + r.usize(100_000) as i32,
    };
    let ver = gen::version(r);
    let (name, _) = gen::pick_tag_name(r, &[Tag::Byte]);
    let (mut m, mut s, a) = one_attr(ver, name, max - 1, false);
    // the stream so far ends after the id of the largest one
    let mut ids: Vec<i32> = vec![max - 1];
    let mut use_ids = vec![0, 1, max / 2, max - 2, 63, 64, 65, 127, 128];
    for _ in 0..6 {
        use_ids.push(r.usize(max as usize) as i32)
    }
    for x in use_ids {
        if x >= 0 && x < max && !ids.contains(&x) {
            ids.push(x)
        }
    }
    m.caches[0].1 = ids.iter().map(|s| (a, *s)).collect();
    let mut exp = vec![];
    let mut put = |s: &mut Stream, id: i32, r: &mut Rng| {
        let v = r.u8();
        s.b.u8(v);
        exp.push(UpdatedAttribute { actor_id: ActorId(1), stream_id: StreamId(id), object_id: ObjectId(a), attribute: Attribute::Byte(v) });
    };
    put(&mut s, max - 1, r);
    for id in ids {
        s.attr(id, max as i64);
        put(&mut s, id, r);
        ctx.hit("stream ids checked");
    }
    s.end_update();
    s.end_frame();
    s.b.u32(0);
    m.net = s.b.b.clone();
    let d = m.int("NumFrames", 1).bytes();
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&d, true);
    if k < 60 {
        ctx.hit("every stream id width")
    }
    match got {
        Ok(g) => {
            let f = &g.network_frames.as_ref().unwrap().frames;
            if f.len() != 1 || !strict(&f[0].updated_actors, &exp) {
                ctx.bad("stream ids", format!("largest stream id {}: {}", max - 1, f.first().map_or("no frame".into(), |f| differ("updates", &f.updated_actors, &exp))), Some(&d))
            }
        }
        Err(e) => ctx.bad("stream ids", format!("largest stream id {}: refused: {e:.300}", max - 1), Some(&d)),
    }
}
/// A class and its ancestors, each adding or replacing one attribute: the nearest definition wins.
fn chain(ctx: &mut Ctx, r: &mut Rng) {
    let t = tables();
    let (leaf, _) = *r.pick(&t.class_list);
    let leaf = if leaf.starts_with("TheWorld") { format!("{leaf}_{}", r.below(99)) } else { leaf.to_string() };
    let mut chain = vec![leaf.clone()];
    let mut cur = leaf.clone();
    while let Some(p) = model::parent_of(&cur) {
        chain.push(p.to_string());
        cur = p.to_string()
    }
    let root = chain.pop().unwrap(); // the topmost name has no parent and holds nothing
    let kinds = [Tag::Boolean, Tag::Byte, Tag::Int, Tag::Float, Tag::Int64, Tag::FlaggedByte];
    let mut m = Mini { ver: gen::version(r), ..Default::default() };
    let skip: Vec<bool> = chain.iter().enumerate().map(|(i, _)| i > 0 && r.chance(1, 5)).collect();
    let mut order: Vec<usize> = (0..chain.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.usize(i + 1))
    }
    if r.chance(1, 2) {
        m.obj(&root);
    }
    for k in &order {
        if !skip[*k] {
            m.obj(&chain[*k]);
        }
    }
    // attribute tables, nearest class wins
    let mut truth: BTreeMap<i32, (Tag, i32)> = BTreeMap::new();
    let mut caches = vec![];
    for (k, c) in chain.iter().enumerate() {
        if skip[k] {
            continue;
        }
        let mut p = vec![];
        for _ in 0..1 + r.usize(3) {
            let sid = r.usize(12) as i32;
            if p.iter().any(|x: &(i32, i32)| x.1 == sid) {
                continue;
            }
            let (n, tag) = gen::pick_tag_name(r, &kinds);
            let a = m.obj(n);
            p.push((a, sid));
            truth.entry(sid).or_insert((tag, a));
        }
        caches.push((m.obj(c), p));
    }
    if r.chance(1, 2) {
        // the root's own entry is not inherited
        if let Some(o) = m.objects.iter().position(|x| *x == root) {
            let a = m.obj("Engine.Actor:bHidden");
            caches.push((o as i32, vec![(a, 13)]));
        }
    }
    for i in (1..caches.len()).rev() {
        caches.swap(i, r.usize(i + 1))
    }
    m.caches = caches;
    let leaf_id = m.obj(&leaf);
    let spawn = {
        let k = t.spawn.iter().find(|(n, _)| *n == leaf).map(|x| x.1);
        k.or_else(|| chain.iter().enumerate().filter(|(k, _)| !skip[*k]).find_map(|(_, c)| t.spawn.iter().find(|(n, _)| n == c).map(|x| x.1))).unwrap_or(Spawn::None)
    };
    let mut s = Stream::new(&m, 1023);
    s.frame(1.0, 0.5);
    s.spawn(3, leaf_id);
    let net = m.v().2;
    let location = if spawn != Spawn::None { Some(gen::enc_vec(r, &mut s.b, net)) } else { None };
    let rotation = if spawn == Spawn::LocRot { Some(gen::enc_rot(r, &mut s.b)) } else { None };
    ctx.hit(["spawn kinds: none", "spawn kinds: location", "spawn kinds: location and rotation"][spawn as usize]);
    s.update(3);
    let max = truth.keys().next_back().map_or(3, |x| *x as i64 + 1);
    let a = AttrCfg { v: m.v(), is_223: false, prod: [0; 5], finite: true, nobj: 0 };
    let mut exp = vec![];
    for (sid, (tag, ob)) in &truth {
        s.attr(*sid, max);
        let attribute = gen::enc_attr(r, &mut s.b, *tag, &a);
        exp.push(UpdatedAttribute { actor_id: ActorId(3), stream_id: StreamId(*sid), object_id: ObjectId(*ob), attribute });
    }
    s.end_update();
    s.end_frame();
    m.net = s.b.b.clone();
    let name_id = if s.named { Some(7) } else { None };
    let f = Frame {
        time: 1.0,
        delta: 0.5,
        new_actors: vec![NewActor { actor_id: ActorId(3), name_id, object_id: ObjectId(leaf_id), initial_trajectory: Trajectory { location, rotation } }],
        deleted_actors: vec![],
        updated_actors: exp,
    };
    ctx.hit("inheritance chains checked");
    let d = m.int("NumFrames", 1).bytes();
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&d, true);
    match got {
        Ok(g) => {
            if let Some(x) = frames_diff(&g.network_frames, &Some(NetworkFrames { frames: vec![f] }), true) {
                ctx.bad("inheritance", format!("{leaf} and its ancestors: {x}"), Some(&d))
            }
        }
        Err(e) => ctx.bad("inheritance", format!("{leaf} and its ancestors: refused: {e:.300}"), Some(&d)),
    }
}
/// level-placed objects: the stadium prefix and instance number do not matter; similar names do
fn level(ctx: &mut Ctx, r: &mut Rng) {
    let mut m = Mini { ver: gen::version(r), ..Default::default() };
    let class = |k: &str| format!("TAGame.{k}");
    let mut names = vec![];
    for _ in 0..1 + r.usize(5) {
        names.push(gen::level_name(r))
    }
    names.dedup();
    let byte = m.obj("TAGame.CarComponent_TA:ReplicatedActive");
    let mut ids: HashMap<String, i32> = HashMap::new();
    for n in &names {
        let i = m.obj(n);
        ids.insert(n.clone(), i);
    }
    for k in model::LEVEL_KINDS {
        let c = m.obj(&class(k));
        let sid = model::LEVEL_KINDS.iter().position(|x| *x == k).unwrap() as i32;
        m.caches.push((c, vec![(byte, sid)]));
    }
    let mut s = Stream::new(&m, 1023);
    s.frame(1.0, 0.5);
    let mut f = Frame { time: 1.0, delta: 0.5, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
    for (k, n) in names.iter().enumerate() {
        let kind = model::LEVEL_KINDS.iter().position(|x| model::canonical(n).ends_with(x)).unwrap();
        s.spawn(k as i32, ids[n]);
        // all six kinds spawn without a trajectory
        f.new_actors.push(NewActor { actor_id: ActorId(k as i32), name_id: if s.named { Some(7) } else { None }, object_id: ObjectId(ids[n]), initial_trajectory: Trajectory { location: None, rotation: None } });
        s.update(k as i32);
        s.attr(kind as i32, kind as i64 + 1);
        let v = r.u8();
        s.b.u8(v);
        s.end_update();
        f.updated_actors.push(UpdatedAttribute { actor_id: ActorId(k as i32), stream_id: StreamId(kind as i32), object_id: ObjectId(byte), attribute: Attribute::Byte(v) });
        ctx.hit("level-placed names checked");
    }
    s.end_frame();
    m.net = s.b.b.clone();
    let d = m.int("NumFrames", 1).bytes();
    let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&d, true);
    match got {
        Ok(g) => {
            if let Some(x) = frames_diff(&g.network_frames, &Some(NetworkFrames { frames: vec![f] }), true) {
                ctx.bad("level names", format!("{names:?}: {x}"), Some(&d))
            }
        }
        Err(e) => ctx.bad("level names", format!("{names:?}: refused: {e:.300}"), Some(&d)),
    }
}

// ------------------------------------------------------------------ what header entries decide

/// Headers that say several things, or the wrong kind of thing, about frame count, channels, match
/// type and build; the stream is written for what the first entry of each name says.
pub fn settings(ctx: &mut Ctx, r: &mut Rng) {
    const KEYS: [&str; 4] = ["NumFrames", "MaxChannels", "MatchType", "BuildVersion"];
    fn near(r: &mut Rng, k: &str) -> String {
        match r.below(7) {
            0 => k.to_lowercase(),
            1 => k.to_uppercase(),
            2 => format!("{k} "),
            3 => format!(" {k}"),
            4 => k[..k.len() - 1].to_string(),
            5 => format!("{k}s"),
            _ => format!("b{k}"),
        }
    }
    fn entry(r: &mut Rng, k: usize) -> HeaderProp {
        let text = |r: &mut Rng, x: &str| if r.chance(1, 2) { HeaderProp::Str(x.into()) } else { HeaderProp::Name(x.into()) };
        if r.chance(1, 4) {
            // some other kind
            return match r.below(7) {
                0 => HeaderProp::QWord(5),
                1 => HeaderProp::Float(5.0),
                2 => HeaderProp::Bool(true),
                3 => HeaderProp::Byte { kind: "Lan".into(), value: Some("Lan".into()) },
                4 => HeaderProp::Array(vec![vec![(KEYS[k].to_string(), entry(r, k))]]),
                5 => HeaderProp::Struct { name: "Lan".into(), fields: vec![(KEYS[k].to_string(), entry(r, k))] },
                _ => {
                    if k < 2 {
                        text(r, "7")
                    } else {
                        HeaderProp::Int(7)
                    }
                }
            };
        }
        match k {
            0 => HeaderProp::Int(r.usize(5) as i32),
            1 => HeaderProp::Int(*r.pick(&[1, 2, 3, 1023, 1024, 2047, 40, 65_536, i32::MAX, -1, i32::MIN])),
            2 => {
                let x = *r.pick(&["Lan", "Lan", "Lan", "lan", "Online", "", "Lan ", "LAN"]);
                text(r, x)
            }
            _ => {
                if r.chance(1, 4) {
                    let x = gen::mangle(r, "221120.42953.406184");
                    return text(r, &x);
                }
                let x = *r.pick(&["221120.42953.406184", "221120.42953.406183", "230101.1.1", "9", "1", "", "221120.42953.4061840", "200101.1.1"]);
                text(r, x)
            }
        }
    }
    let ver = *r.pick(&[(868, 32, 10), (868, 20, 10), (868, 20, 2), (868, 14, 0), (868, 19, 5), (867, 12, 0)]);
    let mut m = Mini { ver, ..Default::default() };
    let mut props: Vec<(String, HeaderProp)> = vec![];
    let missing = if r.chance(1, 3) { r.usize(8) } else { 9 };
    for (k, key) in KEYS.iter().enumerate() {
        if k == missing {
            continue;
        }
        for _ in 0..*r.pick(&[0usize, 1, 1, 2, 2, 3]) {
            props.push((key.to_string(), entry(r, k)));
        }
        if r.chance(1, 3) {
            let (n, e) = (near(r, key), entry(r, k));
            props.push((n, e));
        }
    }
    if r.chance(1, 2) {
        let k = r.usize(4);
        let e = entry(r, k);
        props.push(("Extra".into(), HeaderProp::Struct { name: "E".into(), fields: vec![(KEYS[k].to_string(), e)] }));
    }
    for i in (1..props.len()).rev() {
        let j = r.usize(i + 1);
        props.swap(i, j)
    }
    if r.chance(2, 3) {
        // what matters most: frames to look at
        props.insert(0, ("NumFrames".into(), HeaderProp::Int(1 + r.usize(3) as i32)));
    }
    let first = |k: &str| props.iter().find(|p| p.0 == k).map(|p| &p.1);
    let int = |k: &str| match first(k) {
        Some(HeaderProp::Int(x)) => Some(*x),
        _ => None,
    };
    let is = |k: &str, f: &dyn Fn(&str) -> bool| matches!(first(k), Some(HeaderProp::Str(x) | HeaderProp::Name(x)) if f(x));
    let frames = int("NumFrames");
    let mc = int("MaxChannels").unwrap_or(1023) as u32;
    let lan = is("MatchType", &|x| x == "Lan");
    let new = is("BuildVersion", &|x| x >= "221120.42953.406184");
    for k in KEYS {
        let n = props.iter().filter(|p| p.0 == k).count();
        match (n, first(k)) {
            (0, _) => ctx.hit("settings absent"),
            (1, _) => {}
            (_, Some(HeaderProp::Int(_))) if k == "NumFrames" || k == "MaxChannels" => ctx.hit("settings given repeatedly"),
            (_, Some(HeaderProp::Str(_) | HeaderProp::Name(_))) if k == "MatchType" || k == "BuildVersion" => ctx.hit("settings given repeatedly"),
            _ => ctx.hit("settings of the wrong kind first"),
        }
    }
    m.props = props.clone();
    let v = m.v();
    let class = m.obj("TAGame.CrowdManager_TA");
    let q = *r.pick(&tables().by_tag[&Tag::QWordString]);
    let a = m.obj(q);
    let b = m.obj("TAGame.Vehicle_TA:bReplicatedHandbrake");
    m.caches.push((class, vec![(a, 4), (b, 5)]));
    let mut s = Stream::new(&m, mc);
    s.named = v >= V(868, 20, 0) || (v >= V(868, 14, 0) && !lan);
    let count = frames.unwrap_or(2).max(1);
    let mut want = vec![];
    for k in 0..count {
        let mut f = Frame { time: 1.0 + k as f32, delta: 0.25, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
        s.frame(f.time, f.delta);
        for _ in 0..1 + r.usize(3) {
            let id = ActorId(gen::actor_id(r, mc) as i32);
            s.spawn(id.0, class);
            f.new_actors.push(NewActor { actor_id: id, name_id: s.named.then_some(7), object_id: ObjectId(class), initial_trajectory: Trajectory { location: None, rotation: None } });
            s.update(id.0);
            for _ in 0..1 + r.usize(2) {
                let (sid, object_id, attribute) = if r.chance(1, 2) {
                    s.attr(4, 6);
                    if new {
                        let n = r.usize(12);
                        let t: String = (0..n).map(|_| (b'a' + r.usize(26) as u8) as char).collect();
                        s.b.i32(n as i32 + 1);
                        s.b.bytes(t.as_bytes());
                        s.b.u8(0);
                        (4, a, Attribute::String(t))
                    } else {
                        let x = r.u64();
                        s.b.u64(x);
                        (4, a, Attribute::QWord(x))
                    }
                } else {
                    s.attr(5, 6);
                    let x = r.chance(1, 2);
                    s.b.bit(x);
                    (5, b, Attribute::Boolean(x))
                };
                f.updated_actors.push(UpdatedAttribute { actor_id: id, stream_id: StreamId(sid), object_id: ObjectId(object_id), attribute });
            }
            s.end_update();
        }
        s.end_frame();
        want.push(f);
    }
    s.b.u64(0);
    m.net = s.b.b;
    let d = m.bytes();
    let what = format!("header {props:?}");
    let Some((got, refd)) = both(ctx, &d, CrcCheck::Always, NetworkParse::Always) else { return };
    ctx.eval(&d, true);
    ctx.hit("headers with odd settings");
    let expect = match frames {
        None | Some(0) => Some(NetworkFrames { frames: vec![] }),
        Some(_) => Some(NetworkFrames { frames: want }),
    };
    match got {
        Ok(g) => {
            if !strict(&g.properties, &m.props) {
                return ctx.bad("settings", format!("{what}: {}", differ("properties", &g.properties, &m.props)), Some(&d));
            }
            if let Some(x) = frames_diff(&g.network_frames, &expect, true) {
                return ctx.bad("settings", format!("{what}: {x}"), Some(&d));
            }
            if frames.unwrap_or(0) > 0 {
                ctx.hit("streams decoded as the first entries say")
            }
        }
        Err(e) => return ctx.bad("settings", format!("{what}: stream written for what the first entries say is refused: {e:.400}"), Some(&d)),
    }
    if !refd.result.is_ok() {
        panic!("{what}: the reference decoder disagrees with the generator")
    }
}

// ------------------------------------------------------------------ C13 vocabulary

pub static C13: Prop = Prop {
    id: "C13",
    quick: (299 + 285 + 11) * 200 + 1_000_000,
    thorough: (299 + 285 + 11) * 1000 + 20_000_000,
    run: c13,
    rule: "one case per known attribute name, class name and spawn entry: a stream using it decodes to its kind in an old, a middle and a recent protocol version, then repeatedly in versions at random; plus names that are unknown, which are refused only when used",
    need: &[("attribute names decoded", 5_900), ("class names spawned", 5_600), ("spawn entries checked", 220), ("known names in a version at random", 3_000), ("unknown names refused when used", 30_000), ("unknown names ignored when unused", 30_000)],
    assumptions: &["the vocabulary is the one of the pinned tree (harness/data/*.tsv); names added later are not covered"],
};
const ERAS: [(i32, i32, i32); 3] = [(867, 11, 0), (868, 20, 2), (868, 32, 10)];
/// almost a known name
fn near_miss(r: &mut Rng, known: &str) -> String {
    let t = tables();
    let k = known.len();
    let (pkg, rest) = known.split_once('.').unwrap_or(("", known));
    let (class, prop) = rest.split_once(':').unwrap_or((rest, ""));
    match r.below(27) {
        21 => format!("{}TheWorld:PersistentLevel.CrowdActor_TA_3", r.pick(&["a.b.", ".a.", "..", "a.b.c.", "x", "TheWorld:", "a:b"])),
        22 => format!("{}.TheWorld:PersistentLevel.{}", r.pick(&["stadium_p", ""]), r.pick(&["CrowdActor", "rowdActor_TA", "Crowd Actor_TA", "crowdactor_ta_1", "X_CrowdActor_TA", "InMapScoreboard", "PlayerStart_Platform", "VehiclePickup_TA"])),
        23 => format!("{}CrowdActor_TA_3", r.pick(&["TheWorld:PersistentLevel", "theworld:persistentlevel.", "TheWorld.PersistentLevel.", "World:PersistentLevel.", "stadium.TheWorld:PersistentLevel.x.", "stadium.TheWorld:PersistentLevel:"])),
        24 | 25 => gen::mangle(r, known),
        26 => gen::part(r, known).to_string(),
        0 => "TAGame.Nope_TA:Unheard".to_string(),
        1 => format!("{known}{}", r.pick(&["x", "Q", "s", "_0", "_1", "_TA", "2", ".", ":", "[0]"])),
        2 => known[..k - 1].to_string(),
        3 => known[1..].to_string(),
        4 => format!("{}{known}", r.pick(&[" ", "\t", "\u{a0}", "\u{feff}", "x", "."])),
        5 => format!("{known}{}", r.pick(&[" ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\0", "\0\0"])),
        6 => known.to_lowercase(),
        7 => known.to_uppercase(),
        8 => {
            // one letter in the other case
            let at = r.usize(k);
            known.char_indices().map(|(i, c)| if i != at { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
        }
        9 => {
            // one letter twice, or gone
            let at = r.usize(k);
            let twice = r.chance(1, 2);
            known.char_indices().flat_map(|(i, c)| vec![c; if i != at { 1 } else if twice { 2 } else { 0 }]).collect()
        }
        10 => {
            let at = r.usize(k);
            known.char_indices().map(|(i, c)| if i == at { *r.pick(&['é', '_', 'x', '\0', '?']) } else { c }).collect()
        }
        11 => known.replace('.', ":"),
        12 => known.replace(':', "."),
        13 => format!("{}.{rest}", if pkg == "Engine" { "TAGame" } else { "Engine" }),
        14 => rest.to_string(),
        15 => format!("{pkg}.{class}"),
        16 => prop.to_string(),
        17 => format!("{pkg}.Default__{class}:{prop}"),
        18 => format!("{pkg}.{class}:{}", r.pick(&t.attr_list).0.split(':').next_back().unwrap_or("")),
        19 => format!("Archetypes.{rest}"),
        20 => format!("stadium.TheWorld:PersistentLevel.{rest}_3"),
        _ => r.pick(&["", " ", "None", "\0", ":", ".", "TAGame", "TAGame."]).to_string(),
    }
}
fn c13(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let t = tables();
    let i = i as usize;
    let names = (299 + 285 + 11) * if ctx.thorough() { 200 } else { 20 };
    // from the second round on in versions at random
    let i = if i < names { i % 595 } else { i };
    let mut eras = ERAS;
    if ctx.idx as usize >= 595 && i < 595 {
        eras = [gen::version(&mut r), gen::version(&mut r), gen::version(&mut r)];
        ctx.hit("known names in a version at random");
    }
    if i < 299 {
        let (name, tag) = t.attr_list[i];
        for ver in eras {
            for rep in 0..3 {
                let sid = r.usize(100) as i32;
                let (mut m, mut s, a) = one_attr(ver, name, sid, false);
                let is_223 = rep == 1;
                if is_223 {
                    m.props.push(("BuildVersion".into(), HeaderProp::Str("230101.11111.1".into())));
                }
                let cfg = AttrCfg { v: m.v(), is_223, prod: [0; 5], finite: true, nobj: 1 };
                let attribute = gen::enc_attr(&mut r, &mut s.b, tag, &cfg);
                s.end_update();
                s.end_frame();
                s.b.u32(0);
                m.net = s.b.b.clone();
                let d = m.int("NumFrames", 1).bytes();
                let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
                ctx.eval(&d, true);
                let want = UpdatedAttribute { actor_id: ActorId(1), stream_id: StreamId(sid), object_id: ObjectId(a), attribute };
                match got {
                    Ok(g) => {
                        let u = &g.network_frames.as_ref().unwrap().frames[0].updated_actors;
                        if u.len() != 1 || !strict(&u[0], &want) {
                            return ctx.bad(format!("attribute:{name}"), format!("{name} as {tag:?} in {ver:?}: {}", differ("update", u, &vec![want])), Some(&d));
                        }
                    }
                    Err(e) => return ctx.bad(format!("attribute:{name}"), format!("{name} as {tag:?} in {ver:?}: refused: {e:.300}"), Some(&d)),
                }
            }
        }
        ctx.hit("attribute names decoded");
        return;
    }
    let i = i - 299;
    if i < 285 + 11 {
        // classes and spawn entries: spawn one, with all its ancestors around, and use an attribute
        // every ancestor but the topmost provides
        let (name, what) = if i < 285 { (t.class_list[i].0, "class") } else { (t.spawn[i - 285].0, "spawn") };
        let Some(_) = t.parent.get(name) else {
            // a spawn entry outside the class table: not spawnable on its own
            ctx.hit("spawn entries checked");
            return;
        };
        for ver in eras {
            let mut m = Mini { ver, ..Default::default() };
            let leaf = m.obj(name);
            let mut cur = name.to_string();
            let mut sid = 0;
            let mut all = vec![];
            let a = m.obj("TAGame.CarComponent_TA:ReplicatedActive");
            while let Some(p) = model::parent_of(&cur) {
                let o = m.obj(&cur);
                m.caches.push((o, vec![(a, sid)]));
                all.push(sid);
                sid += 1;
                cur = p.to_string();
            }
            let sp = {
                let mut c = name.to_string();
                loop {
                    if let Some(x) = t.spawn.iter().find(|x| x.0 == c) {
                        break x.1;
                    }
                    match model::parent_of(&c) {
                        Some(p) => c = p.to_string(),
                        None => break Spawn::None,
                    }
                }
            };
            let mut s = Stream::new(&m, 1023);
            s.frame(2.0, 0.5);
            s.spawn(9, leaf);
            let net = m.v().2;
            let location = if sp != Spawn::None { Some(gen::enc_vec(&mut r, &mut s.b, net)) } else { None };
            let rotation = if sp == Spawn::LocRot { Some(gen::enc_rot(&mut r, &mut s.b)) } else { None };
            let mut f = Frame { time: 2.0, delta: 0.5, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
            f.new_actors.push(NewActor { actor_id: ActorId(9), name_id: if s.named { Some(7) } else { None }, object_id: ObjectId(leaf), initial_trajectory: Trajectory { location, rotation } });
            s.update(9);
            for sid in &all {
                s.attr(*sid, all.len() as i64);
                let v = r.u8();
                s.b.u8(v);
                f.updated_actors.push(UpdatedAttribute { actor_id: ActorId(9), stream_id: StreamId(*sid), object_id: ObjectId(a), attribute: Attribute::Byte(v) });
            }
            s.end_update();
            s.end_frame();
            s.b.u32(0);
            m.net = s.b.b.clone();
            let d = m.int("NumFrames", 1).bytes();
            let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
            ctx.eval(&d, true);
            match got {
                Ok(g) => {
                    if let Some(x) = frames_diff(&g.network_frames, &Some(NetworkFrames { frames: vec![f] }), true) {
                        return ctx.bad(format!("{what}:{name}"), format!("{name} spawned as {sp:?} in {ver:?}: {x}"), Some(&d));
                    }
                }
                Err(e) => return ctx.bad(format!("{what}:{name}"), format!("{name} spawned as {sp:?} in {ver:?}: refused: {e:.300}"), Some(&d)),
            }
        }
        ctx.hit(if what == "class" { "class names spawned" } else { "spawn entries checked" });
        return;
    }
    // unknown attribute or class names: no harm until the stream uses them
    let known = r.pick(&t.attr_list).0;
    let name = near_miss(&mut r, known);
    let class_case = r.chance(1, 2);
    let known = r.pick(&t.class_list).0;
    let class = near_miss(&mut r, known);
    if t.attr.contains_key(name.as_str()) || model::parent_of(&class).is_some() || name == class {
        ctx.hit("near misses that hit");
        return;
    }
    for used in [false, true] {
        let mut m = Mini { ver: ERAS[i % 3], ..Default::default() };
        let o = m.obj("TAGame.CrowdManager_TA");
        let a = m.obj("TAGame.CarComponent_TA:ReplicatedActive");
        let u = m.obj(&name);
        let c = m.obj(&class);
        m.caches.push((o, vec![(a, 4), (u, 5)]));
        m.caches.push((c, vec![(a, 4)]));
        let mut s = Stream::new(&m, 1023);
        s.frame(2.0, 0.5);
        s.spawn(9, o);
        s.update(9);
        s.attr(4, 6);
        s.b.u8(1);
        if used && !class_case {
            s.attr(5, 6);
            s.b.u8(1);
        }
        s.end_update();
        if used && class_case {
            s.spawn(8, c);
        }
        s.end_frame();
        s.b.u64(0);
        m.net = s.b.b.clone();
        let d = m.int("NumFrames", 1).bytes();
        let Some(got) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Always, NetworkParse::Always)) else { return };
        ctx.eval(&d, true);
        let want = if class_case {
            FrameError::MissingCache { actor: ActorId(8), actor_object: ObjectId(c) }
        } else {
            FrameError::MissingAttribute { actor: ActorId(9), actor_object: ObjectId(o), attribute_stream: StreamId(5) }
        };
        match (used, got) {
            (false, Ok(_)) => ctx.hit("unknown names ignored when unused"),
            (false, Err(e)) => ctx.bad("unknown", format!("{name} / {class} not used by the stream, yet: {e:.300}"), Some(&d)),
            (true, Ok(_)) => ctx.bad("unknown", format!("{} used by the stream and accepted", if class_case { &class } else { &name }), Some(&d)),
            (true, Err(e)) => match net_error(&e) {
                Some(NetworkError::FrameError(x, _)) if *x == want => ctx.hit("unknown names refused when used"),
                _ => ctx.bad("unknown", format!("expected {want:?}, got {e:.300}"), Some(&d)),
            },
        }
    }
}

// ------------------------------------------------------------------ C14 spatial values

pub static C14: Prop = Prop {
    id: "C14",
    quick: 360_000,
    thorough: 4_000_000,
    run: c14,
    rule: "a case decodes vectors, rotations and quaternions through the public decode functions and through streams, at a chosen bit offset and distance from the end of the data, and compares value and consumed bits with a bit-at-a-time decoder; incomplete data must give no value",
    need: &[("vectors", 20_000), ("rotations", 20_000), ("quaternions", 20_000), ("old quaternions", 20_000), ("incomplete refused", 50_000), ("bit offsets", 8), ("vector sizes", 22), ("trajectories", 20_000)],
    assumptions: &["quaternion arithmetic is the documented formula in f32"],
};
fn c14(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    let off = (i % 8) as usize;
    if i < 8 {
        ctx.hit("bit offsets")
    }
    if i < 22 {
        ctx.hit("vector sizes")
    }
    const NETV: [i32; 8] = [-1, 0, 5, 6, 7, 8, 10, 100];
    for rep in 0..40 {
        let net = NETV[((i / 8) as usize + rep) % 8];
        let kind = rep % 5;
        let mut b = BitW::default();
        for _ in 0..off {
            b.bit(r.chance(1, 2))
        }
        let start = b.n;
        // (text of the expected value)
        let want: String = match kind {
            0 => {
                let m = if net >= 7 { 22 } else { 20 };
                let sz = (i + rep as u64) % m;
                let lim = 1u64 << (sz + 2);
                let mut one = || match r.below(4) {
                    0 => *[0, lim - 1, lim / 2, lim / 2 - 1, 1].get(rep % 5).unwrap(),
                    _ => r.below(lim),
                };
                let v = [one(), one(), one()];
                ctx.hit("vectors");
                format!("{:?}", gen::enc_vec_raw(&mut b, net, sz, v))
            }
            1 => {
                ctx.hit("rotations");
                format!("{:?}", gen::enc_rot(&mut r, &mut b))
            }
            2 => {
                ctx.hit("quaternions");
                format!("{:?}", gen::enc_quat(&mut r, &mut b, 7, false))
            }
            3 => {
                ctx.hit("old quaternions");
                format!("{:?}", gen::enc_quat(&mut r, &mut b, 0, false))
            }
            _ => {
                ctx.hit("trajectories");
                let sp = r.below(3);
                let location = if sp > 0 { Some(gen::enc_vec(&mut r, &mut b, net)) } else { None };
                let rotation = if sp > 1 { Some(gen::enc_rot(&mut r, &mut b)) } else { None };
                format!("{sp} {:?}", Trajectory { location, rotation })
            }
        };
        let end = b.n;
        let sp = want.as_bytes()[0] - b'0'.min(want.as_bytes()[0]);
        let dec = |d: &[u8], skip: usize| -> (Option<String>, usize) {
            let mut rd = LittleEndianReader::new(d);
            for _ in 0..skip {
                rd.read_bit();
            }
            let v = match kind {
                0 => Vector3i::decode(&mut rd, net).map(|v| format!("{v:?}")),
                1 => Rotation::decode(&mut rd).map(|v| format!("{v:?}")),
                2 => Quaternion::decode(&mut rd).map(|v| format!("{v:?}")),
                3 => Quaternion::decode_compressed(&mut rd).map(|v| format!("{v:?}")),
                _ => {
                    let t = [SpawnTrajectory::None, SpawnTrajectory::Location, SpawnTrajectory::LocationAndRotation][sp as usize];
                    Trajectory::from_spawn(&mut rd, t, net).map(|v| format!("{sp} {v:?}"))
                }
            };
            let mut left = 0;
            while rd.read_bit().is_some() {
                left += 1
            }
            (v, d.len() * 8 - left)
        };
        // followed by anything, by little, by nothing
        for extra in [0usize, 1, 7, 8, 20] {
            let mut d = b.b.clone();
            let x = r.bytes(extra);
            d.extend(x);
            let key = ["vector", "rotation", "quaternion", "old quaternion", "trajectory"][kind];
            let Some((v, used)) = ctx.guard(key, &d, || dec(&d, start)) else { return };
            ctx.eval(&d, true);
            if v.as_deref() != Some(want.as_str()) || used != end {
                return ctx.bad(key, format!("{key} at bit {off}, net version {net}, {extra} bytes after it: got {v:?} ending at bit {used}, expected {want} ending at bit {end}"), Some(&d));
            }
        }
        // cut short: by whole bytes (the last one may end inside the value)
        let total = b.b.len();
        for cut in 1..=(total.min(4)) {
            let d = &b.b[..total - cut];
            if d.len() * 8 >= end || d.len() * 8 < start {
                continue;
            }
            let key = ["vector", "rotation", "quaternion", "old quaternion", "trajectory"][kind];
            let Some((v, _)) = ctx.guard(key, d, || dec(d, start)) else { return };
            // what is there may happen to be complete in another reading only if the reference agrees
            let mut rr = BitR { d, pos: start };
            let refv = match kind {
                0 => refdec::vec3i(&mut rr, net).is_some(),
                1 => refdec::rotation(&mut rr).is_some(),
                2 => refdec::quat(&mut rr, 7).is_some(),
                3 => refdec::quat(&mut rr, 0).is_some(),
                _ => false,
            };
            assert!(!refv);
            if v.is_some() {
                return ctx.bad(key, format!("{key} out of {} of {} bits: {v:?}", d.len() * 8 - start, end - start), Some(d));
            }
            ctx.hit("incomplete refused");
        }
    }
    // in a stream: positions of the attribute kinds that carry them
    let tags = [Tag::RigidBody, Tag::Location, Tag::Welded, Tag::RotationTag, Tag::Explosion, Tag::ExtendedExplosion, Tag::Demolish, Tag::DemolishFx, Tag::DemolishExtended, Tag::AppliedDamage, Tag::DamageState];
    let o = NetOpts { frames: 1, ops: 8, classes: 1, tags: tags.to_vec(), ..Default::default() };
    let s = gen::synth(&mut r, &o);
    compare(ctx, "in a stream", &s);
}

// ------------------------------------------------------------------ C15 malformed network data

pub static C15: Prop = Prop {
    id: "C15",
    quick: 100_000,
    thorough: 2_000_000,
    run: c15,
    rule: "a case is a file with damaged, truncated or random network data (or odd class tables); acceptance must coincide with the reference decoder's, and everything accepted must satisfy the stream invariants (known actors, indexed objects, declared attributes, complete values, frame count)",
    need: &[("refused as it should be", 12_000), ("accepted as it should be", 4_000), ("truncations refused", 10_000), ("invariants checked on accepted frames", 20_000), ("real replays with damaged network data", 300), ("systems of an id tried", 1_500), ("values of arbitrary bits", 500)],
    assumptions: &["which streams decode is decided by the harness' reference decoder"],
};
/// what must hold of any frames boxcars returns, whatever the file
fn invariants(g: &Replay) -> Result<usize, String> {
    let Some(nf) = &g.network_frames else { return Ok(0) };
    let n = g.objects.len() as i32;
    let find = |k: &str| g.properties.iter().find(|p| p.0 == k).map(|p| &p.1);
    let mc = find("MaxChannels").and_then(|p| p.as_i32()).map_or(1023u32, |x| x as u32);
    let num = find("NumFrames").and_then(|p| p.as_i32()).unwrap_or(0);
    if nf.frames.len() as i64 > num.max(0) as i64 {
        return Err(format!("{} frames, header announces {num}", nf.frames.len()));
    }
    let mut declared: HashSet<(i32, i32)> = HashSet::new();
    for c in &g.net_cache {
        for p in &c.properties {
            declared.insert((p.stream_id, p.object_ind));
        }
    }
    let mut spawned: HashSet<i32> = HashSet::new();
    let net = g.net_version.unwrap_or(0);
    let bound = 1i64 << (if net >= 7 { 22 } else { 20 });
    let vec_ok = |v: &Vector3f| [v.x, v.y, v.z].iter().all(|x| x.is_finite() && (x.abs() as f64) * 100.0 <= bound as f64 * 1.001);
    let mut checked = 0;
    for (i, f) in nf.frames.iter().enumerate() {
        let err = |m: String| Err(format!("frame {i}: {m}"));
        for (w, t) in [("time", f.time), ("delta", f.delta)] {
            if t < 0.0 || (t > 0.0 && t < 1e-10) {
                return err(format!("{w} {t} out of range"));
            }
        }
        if f.time == 0.0 && f.delta == 0.0 {
            return err("the all-zero frame was returned".into());
        }
        for a in &f.new_actors {
            if (a.actor_id.0 as u32) >= mc.max(1) {
                return err(format!("actor id {} with {mc} channels", a.actor_id));
            }
            if a.object_id.0 < 0 || a.object_id.0 >= n {
                return err(format!("actor of object {} of {n}", a.object_id));
            }
            if a.initial_trajectory.rotation.is_some() && a.initial_trajectory.location.is_none() {
                return err("spawned with a rotation but no location".into());
            }
            spawned.insert(a.actor_id.0);
            checked += 1;
        }
        for u in &f.updated_actors {
            if !spawned.contains(&u.actor_id.0) {
                return err(format!("update of actor {} that was never spawned", u.actor_id));
            }
            if !declared.contains(&(u.stream_id.0, u.object_id.0)) {
                return err(format!("update with stream id {} / object {} that no class declares", u.stream_id, u.object_id));
            }
            let ok = match &u.attribute {
                Attribute::RigidBody(b) => {
                    b.linear_velocity.is_some() != b.sleeping
                        && b.angular_velocity.is_some() != b.sleeping
                        && vec_ok(&b.location)
                        && b.linear_velocity.iter().chain(&b.angular_velocity).all(|v| vec_ok(v))
                }
                Attribute::Location(v) => vec_ok(v),
                Attribute::String(s) => s.len() <= 1024 * 3,
                Attribute::Enum(x) => *x < 1 << 11,
                Attribute::PlayerHistoryKey(x) => *x < 1 << 14,
                Attribute::GameMode(b, v) => (*b == 2 && *v < 4) || *b == 8,
                Attribute::CamSettings(c) => c.transition.is_some() == ((g.major_version, g.minor_version, net) >= (868, 20, 0)),
                _ => true,
            };
            if !ok {
                return err(format!("value cannot have been in the stream: {:?}", u.attribute));
            }
            checked += 1;
        }
        for a in &f.deleted_actors {
            if (a.0 as u32) >= mc.max(1) {
                return err(format!("deleted actor id {} with {mc} channels", a));
            }
            checked += 1;
        }
        checked += 1;
    }
    Ok(checked)
}
fn verdict(ctx: &mut Ctx, d: &[u8]) -> Option<bool> {
    let Some((got, want)) = both(ctx, d, CrcCheck::Never, NetworkParse::Always) else { return None };
    ctx.eval(d, true);
    if let Ok(g) = &got {
        match invariants(g) {
            Ok(n) => ctx.add("invariants checked on accepted frames", n as u64),
            Err(m) => {
                ctx.bad("invariant", m, Some(d));
                return None;
            }
        }
    }
    match (&got, &want.result) {
        (Ok(a), Ok(b)) => {
            if let Some(x) = frames_diff(&a.network_frames, &b.network_frames, true) {
                ctx.bad("value", x, Some(d))
            }
            ctx.hit("accepted as it should be");
            Some(true)
        }
        (Err(_), Err(RefErr::Parse(_))) => Some(false),
        (Err(_), Err(RefErr::Net(_))) => {
            ctx.hit("refused as it should be");
            Some(false)
        }
        (Ok(_), Err(e)) => {
            ctx.bad("accepted", format!("accepted, although {e:.400?}"), Some(d));
            None
        }
        (Err(e), Ok(_)) => {
            ctx.bad("refused", format!("refused with {e:.400}"), Some(d));
            None
        }
    }
}
fn c15(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    match i % 8 {
        0 => {
            // every byte boundary of a short stream
            let o = NetOpts { frames: 1 + r.usize(3), ops: 6, classes: 2, ..Default::default() };
            let s = gen::synth(&mut r, &o);
            let (h, c) = hostile::parts(&s);
            let full = &s.bytes[s.network_at.0..s.network_at.1];
            // announce only the frames there are, so that the count never is the problem
            let nf = s.expect.network_frames.as_ref().unwrap().frames.len();
            let need = (s.net_bits + 7) / 8;
            let from = need.saturating_sub(60);
            for k in from..full.len() {
                let mut c2 = c.clone();
                hostile::splice_network(&s, &mut c2, full[..k].to_vec());
                let d = seal(&h, &c2).0;
                let Some(ok) = verdict(ctx, &d) else { return };
                if k < need {
                    if ok {
                        // fewer frames than announced is only possible by ending between frames
                        let Some(Ok(g)) = ctx.guard("parse", &d, || opts(&d, CrcCheck::Never, NetworkParse::Always)) else { return };
                        let got = g.network_frames.as_ref().map_or(0, |f| f.frames.len());
                        if got >= nf {
                            return ctx.bad("truncated", format!("stream of {need} bytes cut to {k}: still {got} of {nf} frames"), Some(&d));
                        }
                    } else {
                        ctx.hit("truncations refused")
                    }
                }
            }
        }
        1 | 2 => {
            let d = hostile::generate(&mut r, 6);
            verdict(ctx, &d);
        }
        3 => {
            let d = hostile::generate(&mut r, 5);
            verdict(ctx, &d);
        }
        4 => {
            let d = hostile::generate(&mut r, 12);
            verdict(ctx, &d);
        }
        5 => {
            let d = hostile::generate(&mut r, 11);
            verdict(ctx, &d);
        }
        6 if i % 32 == 6 => {
            let d = hostile::generate(&mut r, 10);
            ctx.hit("real replays with damaged network data");
            verdict(ctx, &d);
        }
        6 => {
            let d = hostile::generate(&mut r, 3);
            verdict(ctx, &d);
        }
        _ if i / 8 < 256 * 3 * 2 => systems(ctx, &mut r, i / 8),
        _ => targeted(ctx, &mut r),
    }
}
/// every one of the 256 systems an id may come from, wherever an id may be
fn systems(ctx: &mut Ctx, r: &mut Rng, k: u64) {
    let sys = (k % 256) as u8;
    let t = [Tag::UniqueId, Tag::PartyLeader, Tag::Reservation][(k / 256 % 3) as usize];
    let ver = gen::version(r);
    let (name, _) = gen::pick_tag_name(r, &[t]);
    let (mut m, mut s, _) = one_attr(ver, name, r.usize(70) as i32, false);
    if t == Tag::Reservation {
        s.b.bits(r.below(8), 3);
    }
    s.b.u8(sys);
    let zero = k < 768;
    for _ in 0..200 {
        s.b.u8(if zero { 0 } else { r.u8() & 0x83 })
    }
    m.net = s.b.b.clone();
    let d = m.int("NumFrames", 1).bytes();
    ctx.hit("systems of an id tried");
    verdict(ctx, &d);
}
/// one specific thing wrong with an otherwise fine stream
fn targeted(ctx: &mut Ctx, r: &mut Rng) {
    let ver = gen::version(r);
    let t = *r.pick(&ALL_TAGS);
    let (name, _) = gen::pick_tag_name(r, &[t]);
    let sid = r.usize(70) as i32;
    let lan = r.chance(1, 4);
    let (mut m, mut s, _) = one_attr(ver, name, sid, lan);
    let cfg = AttrCfg { v: m.v(), is_223: false, prod: [0; 5], finite: false, nobj: 2 };
    let at = s.b.n;
    if r.chance(1, 4) {
        // whatever the bits are, what they mean is defined
        let n = 1 + if r.chance(1, 3) { r.usize(700) } else { r.usize(40) };
        let style = r.below(4);
        for _ in 0..n {
            match style {
                0 => s.b.u8(r.u8()),
                1 => s.b.u8(1 << r.below(8)),
                2 => s.b.u8(if r.chance(1, 6) { r.u8() } else { 0 }),
                _ => s.b.u8(if r.chance(1, 6) { r.u8() } else { 0xff }),
            }
        }
        if n < 60 {
            // so that what follows the value is fine
            for _ in 0..200 {
                s.b.u8(0)
            }
        }
        m.net = s.b.b.clone();
        ctx.hit("values of arbitrary bits");
        let d = m.int("NumFrames", 1).bytes();
        verdict(ctx, &d);
        return;
    }
    gen::enc_attr(r, &mut s.b, t, &cfg);
    match r.below(7) {
        0 => {
            // ends inside the value
            let keep = at + r.usize(s.b.n - at + 1);
            s.b.b.truncate((keep + 7) / 8);
        }
        1 => {
            // an id past the declared ones
            s.end_update();
            s.update(1);
            s.b.bit(true);
            s.b.bits(r.u64(), 12);
            s.end_update();
            s.end_frame();
        }
        2 => {
            s.end_update();
            s.spawn(2, *r.pick(&[2, 3, -1, i32::MAX, i32::MIN, 1]));
            s.b.u64(r.u64());
            s.end_frame();
        }
        3 => {
            s.end_update();
            s.end_frame();
            let times = [-1.0f32, -0.0, 1e-11, 9.9e-11, 1e-10, -1e-30, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, 1e-45];
            s.frame(*r.pick(&times), *r.pick(&times));
            s.end_frame();
        }
        4 => {
            s.end_update();
            s.update(*r.pick(&[0, 2, 200, 201, 1000]));
            s.b.u64(r.u64());
        }
        5 => {
            // flip one bit of the value
            let n = s.b.n - at;
            if n > 0 {
                let k = at + r.usize(n);
                s.b.b[k / 8] ^= 1 << (k % 8);
            }
            s.end_update();
            s.end_frame();
            s.b.u64(0);
        }
        _ => {
            s.end_update();
            s.end_frame();
            let k = r.usize(12);
            for _ in 0..k {
                s.b.u8(r.u8())
            }
        }
    }
    m.net = s.b.b.clone();
    let n = *r.pick(&[1, 2, 3]);
    let d = m.int("NumFrames", n).bytes();
    verdict(ctx, &d);
}

// ------------------------------------------------------------------ C16 diagnostics

pub static C16: Prop = Prop {
    id: "C16",
    quick: 700_000,
    thorough: 8_000_000,
    run: c16,
    rule: "a case is a file that fails; the reported error is compared with the reference decoder's (kind, section, byte offset, amounts, actor, object, stream id), its message must carry those facts, and the source chain must lead to the innermost error",
    need: &[("failures after a crowd", 5_000), ("byte-level errors compared", 5_000), ("frame errors compared", 5_000), ("attribute errors compared", 300), ("distinct sections named", 12), ("network size errors compared", 300), ("corrupt replay errors compared", 500), ("frame context checked", 4_000), ("unknown properties named", 200), ("properties with the same id listed", 200), ("more than ten properties with the same id listed", 60), ("files beyond 2 GiB refused", 20)],
    assumptions: &["wording beyond the facts named in the property is not checked"],
};
fn c16(ctx: &mut Ctx, i: u64) {
    let mut r = ctx.rng();
    if i == 0 {
        return super::safety::beyond(ctx);
    }
    let kind = [1, 2, 3, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14, 99, 99, 5, 98, 19, 97][(i % 19) as usize];
    let d = match kind {
        97 => {
            ctx.hit("failures after a crowd");
            crowd_fails(&mut r)
        }
        98 => hostile::stray_prop(&mut r),
        99 => broken_attr(&mut r),
        _ => hostile::generate(&mut r, kind),
    };
    let chk = *r.pick(&CRCS);
    let chk = if i % 3 == 0 { CrcCheck::OnError } else { chk };
    let Some((got, want)) = both(ctx, &d, chk, NetworkParse::Always) else { return };
    ctx.eval(&d, got.is_err());
    judge(ctx, "error", &d, &got, &want);
    let (Err(e), Err(w)) = (&got, &want.result) else { return };
    let Some(msg) = ctx.guard("Display of the error", &d, || format!("{e}")) else { return };
    let bad = |ctx: &mut Ctx, m: String| ctx.bad("message", format!("{m}; message: {msg:.500}; error {e:.300?}"), Some(&d));
    // the chain of sources
    {
        use std::error::Error;
        let mut depth = 0;
        let mut cur: Option<&(dyn Error + 'static)> = e.source();
        while let Some(x) = cur {
            if x.to_string().is_empty() {
                bad(ctx, "a source with an empty message".into());
            }
            depth += 1;
            if depth > 20 {
                break;
            }
            cur = x.source();
        }
        let want_depth = chain_len(e);
        if depth != want_depth {
            bad(ctx, format!("source chain of length {depth}, expected {want_depth}"))
        }
    }
    let mut x = e;
    loop {
        match x {
            ParseError::CorruptReplay(sec, inner) => {
                ctx.hit("corrupt replay errors compared");
                if !format!("{x}").contains(sec.as_str()) {
                    bad(ctx, format!("does not name the section {sec}"))
                }
                x = inner;
            }
            ParseError::ParseError(sec, off, inner) => {
                let m = format!("{x}");
                if !m.contains(*sec) || !m.contains(&off.to_string()) || !m.contains(&format!("{inner}")) {
                    bad(ctx, format!("does not carry section {sec}, offset {off} and cause {inner}"))
                }
                if ctx.counters.get(&format!("section {sec}")).is_none() {
                    ctx.hit("distinct sections named");
                }
                ctx.hit(format!("section {sec}"));
                x = inner;
            }
            _ => break,
        }
    }
    let m = format!("{x}");
    let facts: Vec<String> = match x {
        ParseError::TextTooLarge(n) => vec![n.to_string()],
        ParseError::InsufficientData(a, b) => vec![a.to_string(), b.to_string()],
        ParseError::UnexpectedProperty(s) => vec![s.clone()],
        ParseError::CrcMismatch(a, b) => vec![a.to_string(), b.to_string()],
        ParseError::ListTooLarge(n) => vec![n.to_string()],
        _ => vec![],
    };
    if let Some(f) = facts.iter().find(|f| !m.contains(f.as_str())) {
        bad(ctx, format!("does not carry {f}"))
    }
    match w {
        RefErr::Parse(_) => ctx.hit("byte-level errors compared"),
        RefErr::Net(n) => {
            let facts: Vec<String> = match n {
                refdec::NetErr::TooManyFrames(n) => {
                    ctx.hit("network size errors compared");
                    vec![n.to_string()]
                }
                refdec::NetErr::StreamTooLarge(a, b) => {
                    ctx.hit("network size errors compared");
                    vec![a.to_string(), b.to_string()]
                }
                refdec::NetErr::Frame(fe, cx) => {
                    ctx.hit("frame errors compared");
                    let objs: Vec<String> = want_objects(&d);
                    let name = |o: &ObjectId| if o.0 >= 0 { objs.get(o.0 as usize).cloned().unwrap_or_default() } else { String::new() };
                    let mut v = vec![];
                    match fe {
                        FrameError::NotEnoughDataFor(x) => v.push(x.to_string()),
                        FrameError::TimeOutOfRange { time } => v.push(format!("{time}")),
                        FrameError::DeltaOutOfRange { delta } => v.push(format!("{delta}")),
                        FrameError::ObjectIdOutOfRange { obj } => v.push(obj.to_string()),
                        FrameError::MissingActor { actor } => v.push(actor.to_string()),
                        FrameError::MissingCache { actor, actor_object } => v.extend([actor.to_string(), actor_object.to_string(), name(actor_object)]),
                        FrameError::MissingAttribute { actor, actor_object, attribute_stream } => {
                            v.extend([actor.to_string(), actor_object.to_string(), attribute_stream.to_string()]);
                            if let Some(o) = cx.own {
                                // a property of a kind nobody knows
                                v.push(name(&ObjectId(o)));
                                ctx.hit("unknown properties named");
                            } else {
                                v.push(name(actor_object));
                                v.extend(cx.same_id.iter().map(|o| name(&ObjectId(*o))));
                                if cx.same_id.len() > 1 {
                                    ctx.hit("properties with the same id listed")
                                }
                                if cx.same_id.len() > 10 {
                                    ctx.hit("more than ten properties with the same id listed")
                                }
                            }
                        }
                        FrameError::AttributeError { actor, actor_object, attribute_stream, error } => {
                            ctx.hit("attribute errors compared");
                            v.extend([actor.to_string(), actor_object.to_string(), attribute_stream.to_string(), error.to_string(), name(actor_object)])
                        }
                    }
                    // where decoding stood
                    let (t, dt) = cx.last_time.unwrap_or((0.0, 0.0));
                    v.push(format!("Current frame: {} (time: {t} delta: {dt})", cx.frames_done));
                    let line = |k: &str, val: String| format!("\n{k}: {val}\n");
                    let upd = |v: &mut Vec<String>, u: &UpdatedAttribute| {
                        v.push("Last actor update".into());
                        v.push(line("actor id", u.actor_id.to_string()));
                        v.push(line("attribute", format!("{:?}", u.attribute)));
                        if let Some(o) = cx.actors.get(&u.actor_id.0) {
                            v.push(line("object id", o.to_string()));
                            v.push(line("object name", name(&ObjectId(*o))));
                        }
                        v.push(line("attribute stream id", u.stream_id.to_string()));
                        v.push(line("attribute object id", u.object_id.to_string()));
                        v.push(line("attribute object name", name(&u.object_id)));
                    };
                    let new = |v: &mut Vec<String>, a: &NewActor| {
                        v.push("Last new actor".into());
                        v.push(line("actor id", a.actor_id.to_string()));
                        v.push(line("object id", a.object_id.to_string()));
                        v.push(line("object name", name(&a.object_id)));
                        v.push(line("name id", a.name_id.map_or("<none>".into(), |x| x.to_string())));
                        v.push(line("location", format!("{:?}", a.initial_trajectory.location)));
                        v.push(line("rotation", format!("{:?}", a.initial_trajectory.rotation)));
                    };
                    if let Some(u) = &cx.last_update {
                        upd(&mut v, u)
                    } else if let Some(a) = &cx.last_new {
                        new(&mut v, a)
                    } else if let Some((i, f)) = &cx.prev {
                        v.push(format!("Retrace frame: {i} (time: {}, delta: {})", f.time, f.delta));
                        match (f.updated_actors.last(), f.new_actors.last()) {
                            (Some(u), _) => upd(&mut v, u),
                            (None, Some(a)) => new(&mut v, a),
                            _ => {}
                        }
                    }
                    ctx.hit("frame context checked");
                    v
                }
            };
            if let Some(f) = facts.iter().find(|f| !msg.contains(f.as_str())) {
                bad(ctx, format!("does not carry {f:?}"))
            }
            ctx.sample(|| json!({"message": msg, "facts looked for": facts}));
        }
    }
}
/// many events in the last frames, then one that cannot be
fn crowd_fails(r: &mut Rng) -> Vec<u8> {
    let (mut m, mut s, _) = one_attr((868, 32, 10), "TAGame.Vehicle_TA:bReplicatedHandbrake", 0, false);
    s.b.bit(true);
    s.end_update();
    let a = m.obj("TAGame.CrowdManager_TA");
    let car = m.obj("TAGame.Default__PRI_TA");
    let many = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 8, 15, 16, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 511, 513, 1000, 1025]);
    let frames = r.usize(4);
    for k in 0..=frames {
        if k > 0 {
            s.frame(1.0 + k as f32, 0.125 * k as f32);
        }
        let order = r.usize(6);
        for what in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order] {
            if r.chance(1, 3) {
                continue;
            }
            let n = many(r);
            match what {
                0 => (0..n).for_each(|j| s.spawn(2 + (j % 1000) as i32, a)),
                1 => (0..n).for_each(|j| s.delete(2 + (j % 1000) as i32)),
                _ if n > 0 => {
                    s.update(1);
                    for j in 0..n {
                        s.attr(0, 1);
                        s.b.bit(j % 2 == 0)
                    }
                    s.end_update()
                }
                _ => {}
            }
        }
        if k < frames {
            s.end_frame()
        }
    }
    match r.below(6) {
        0 => s.update(1010),
        1 => s.spawn(5, 1000),
        2 => s.spawn(5, -1 - r.below(3) as i32),
        3 => {
            // an actor without properties
            s.spawn(7, a);
            s.update(7);
            s.b.bit(true)
        }
        4 => {
            s.spawn(8, car);
            s.update(1009)
        }
        _ => {
            if r.chance(1, 2) {
                s.end_frame();
            } else {
                s.b.bit(false);
            }
            s.frame(*r.pick(&[-1.0f32, f32::NAN, 1e-11, f32::INFINITY]), 1.0)
        }
    }
    for _ in 0..4 {
        s.b.u64(r.u64())
    }
    m.net = s.b.b;
    m.int("NumFrames", 9 + frames as i32).bytes()
}
fn chain_len(e: &ParseError) -> usize {
    match e {
        ParseError::ParseError(_, _, x) | ParseError::CorruptReplay(_, x) => 1 + chain_len(x),
        ParseError::Utf8Error(_) => 1,
        ParseError::NetworkError(n) => {
            1 + match &**n {
                NetworkError::FrameError(FrameError::AttributeError { .. }, _) => 2,
                NetworkError::FrameError(..) => 1,
                _ => 0,
            }
        }
        _ => 0,
    }
}
fn want_objects(d: &[u8]) -> Vec<String> {
    refdec::reference(d, CrcCheck::Never, NetworkParse::Never).result.map(|r| r.objects).unwrap_or_default()
}
/// a stream that is fine up to one value of some attribute kind
fn broken_attr(r: &mut Rng) -> Vec<u8> {
    let o = NetOpts { frames: 1 + r.usize(3), ops: 6, classes: 2, ..Default::default() };
    let s = gen::synth(r, &o);
    let (h, mut c) = hostile::parts(&s);
    let mut net = s.bytes[s.network_at.0..s.network_at.1].to_vec();
    let marks: Vec<usize> = s.marks.iter().enumerate().filter(|(_, m)| matches!(m.1, gen::Mark::Attr(_))).map(|(i, _)| i).collect();
    if let Some(k) = if marks.is_empty() { None } else { Some(*r.pick(&marks)) } {
        let a = if k == 0 { 0 } else { s.marks[k - 1].0 };
        let b = s.marks[k].0;
        match r.below(3) {
            0 => {
                let x = a + r.usize(b - a);
                net[x / 8] ^= 1 << (x % 8);
            }
            1 => {
                for x in a..b {
                    if r.chance(1, 3) {
                        net[x / 8] ^= 1 << (x % 8)
                    }
                }
            }
            _ => net.truncate((a + r.usize(b - a)) / 8),
        }
    }
    hostile::splice_network(&s, &mut c, net);
    seal(&h, &c).0
}

// ------------------------------------------------------------------ C22 genuine recordings

pub static C22: Prop = Prop {
    id: "C22",
    quick: 700,
    thorough: 20_000,
    run: c22,
    rule: "one case per bundled genuine recording: sections decoded independently of each other have to tell the same story (frame count, keyframe times, class index, goals, actor histories); then cases made from genuine recordings, holding the same events with other actor ids, channel counts, stream ids, object order and text encodings, cut short after a frame or continued to more than 65,536 frames: what they decode to must be exactly what follows from the original",
    need: &[("frames joined", 20), ("recordings decoded", 100), ("keyframes matched with frames", 2000), ("frame counts equal to the header's", 100), ("class index entries matched", 1000), ("goals inside the recording", 200), ("invariants checked on accepted frames", 5_000_000), ("derived recordings equal to what follows from the original", 500), ("recordings of more than 65,536 frames", 8), ("recordings of more than 100,000 frames", 3), ("objects in another order", 80), ("other channel counts", 150), ("other versions with the same layouts", 150), ("other stream ids", 150)],
    assumptions: &["the recordings in assets/replays/good are genuine"],
};
fn c22(ctx: &mut Ctx, i: u64) {
    let good = corpus::good();
    let Some((n, d)) = good.get(i as usize) else { return derived(ctx, i - good.len() as u64) };
    let Some(got) = ctx.guard("parse", &[], || opts(d, CrcCheck::OnError, NetworkParse::Always)) else { return };
    ctx.eval(d, true);
    let bad = |ctx: &mut Ctx, m: String| ctx.bad(format!("recording:{n}"), format!("{n}: {m}"), None);
    let g = match got {
        Ok(g) => g,
        Err(e) => return bad(ctx, format!("not decoded: {e:.300}")),
    };
    ctx.hit("recordings decoded");
    match invariants(&g) {
        Ok(k) => ctx.add("invariants checked on accepted frames", k as u64),
        Err(m) => return bad(ctx, m),
    }
    let frames = &g.network_frames.as_ref().unwrap().frames;
    let num = g.properties.iter().find(|p| p.0 == "NumFrames").and_then(|p| p.1.as_i32());
    if let Some(x) = num {
        if x as usize == frames.len() {
            ctx.hit("frame counts equal to the header's")
        } else {
            bad(ctx, format!("{} frames decoded, header says {x}", frames.len()))
        }
    }
    for k in &g.keyframes {
        // a keyframe names a frame of the stream and its time
        let Some(f) = frames.get(k.frame as usize) else {
            bad(ctx, format!("keyframe at frame {} of {}", k.frame, frames.len()));
            continue;
        };
        if f.time != k.time {
            bad(ctx, format!("keyframe {k:?} is frame {} with time {}", k.frame, f.time));
        } else {
            ctx.hit("keyframes matched with frames")
        }
    }
    let mut off = vec![];
    for c in &g.class_indices {
        if g.objects.get(c.index as usize) == Some(&c.class) {
            ctx.hit("class index entries matched")
        } else {
            // the index is kept by the game independently, and is off by an entry in one recording
            off.push(format!("class index {c:?} names {:?}", g.objects.get(c.index as usize)))
        }
    }
    if off.len() * 20 > g.class_indices.len() {
        bad(ctx, off.join(", "))
    }
    for goal in g.properties.iter().filter(|p| p.0 == "Goals").filter_map(|p| p.1.as_array()).flatten() {
        if let Some(f) = goal.iter().find(|p| p.0 == "frame").and_then(|p| p.1.as_i32()) {
            if f >= 0 && (f as usize) <= frames.len() {
                ctx.hit("goals inside the recording")
            } else {
                bad(ctx, format!("goal at frame {f} of {}", frames.len()))
            }
        }
    }
    let mut last = 0.0f32;
    for (i, f) in frames.iter().enumerate() {
        if f.time < last {
            return bad(ctx, format!("time runs backwards at frame {i}: {last} -> {}", f.time));
        }
        last = f.time;
    }
    ctx.sample(|| json!({"file": n, "frames": frames.len(), "keyframes": g.keyframes.len(), "version": format!("{:?}", V(g.major_version, g.minor_version, g.net_version.unwrap_or(0)))}));
}

fn derived(ctx: &mut Ctx, i: u64) {
    use crate::derive::{derive, source, Plan};
    let mut r = ctx.rng();
    let good = corpus::good();
    let (n, d) = &good[(i % good.len() as u64) as usize];
    let Some(s) = source(n, d) else { return ctx.bad(format!("recording:{n}"), format!("{n}: the reference decoder refuses it"), None) };
    let count = s.replay.network_frames.as_ref().map_or(0, |f| f.frames.len());
    let mut p = Plan { repeat: 1, stream_scale: 1, ..Default::default() };
    let long = count > 0 && d.len() < 1_600_000 && r.chance(1, if ctx.thorough() { 20 } else { 12 });
    if long {
        // as if it had gone on until frames no longer fit 16 bits
        p.repeat = 65_700 / count + 1;
        if d.len() > 600_000 {
            p.keep = Some(count.min(1 + r.usize(300)));
            p.repeat = 65_700 / p.keep.unwrap() + 1;
        }
        if r.chance(1, 2) {
            // far longer, with nothing going on
            (p.keep, p.repeat) = (None, 1);
            p.idle = *r.pick(&[65_600usize, 100_100, 131_100, 262_200, 524_400, 1_000_100]);
        }
    } else if r.chance(1, 3) {
        if r.chance(1, 2) {
            // what happened in a number of frames happens in one
            p.merge = *r.pick(&[2usize, 2, 3, 4, 7, 15, 30, 100, 1 << 20]);
            ctx.hit("frames joined");
        }
        p.keep = Some(match r.below(4) {
            0 => 1,
            1 => count.saturating_sub(1),
            _ => r.usize(count + 1),
        });
        p.repeat = 1 + r.usize(2);
    }
    if r.chance(1, 2) {
        let least = s.max_id as u32 + 1;
        let mc = match r.below(9) {
            0 | 1 => least,
            2 => 1023,
            3 => 1024,
            4 => 2047,
            5 => 4096 + r.u32() % 60_000,
            6 => i32::MAX as u32,
            7 => u32::MAX,
            _ => least + 1 + r.u32() % 300,
        }
        .max(least);
        p.max_channels = Some(mc);
        let room = (mc as i64 - least as i64).min(i32::MAX as i64 - least as i64);
        p.id_offset = match r.below(3) {
            0 => 0,
            1 => room as i32,
            _ => (r.u64() % (room as u64 + 1)) as i32,
        };
        p.id_reverse = r.chance(1, 3);
        ctx.hit("other channel counts");
    }
    if r.chance(1, 2) {
        p.stream_scale = 1 + r.below(3) as i32;
        p.stream_shift = r.usize(140) as i32;
        if r.chance(1, 2) {
            p.widen = Some((1 + r.usize(3), 200 + r.usize(5000) as i32));
        }
        ctx.hit("other stream ids");
    }
    if r.chance(1, 3) {
        p.permute = Some(r.u64());
        ctx.hit("objects in another order");
    }
    if r.chance(1, 3) {
        p.shuffle_cache = Some(r.u64())
    }
    if r.chance(1, 3) {
        p.more_objects = 1 + r.usize(50)
    }
    if r.chance(1, 3) {
        p.declare_more = 1 + r.usize(40) as i32;
    }
    p.unpacked = r.chance(1, 3);
    if r.chance(1, 2) {
        use crate::derive::layouts;
        let g = &s.replay;
        let now = (g.major_version, g.minor_version, g.net_version);
        for _ in 0..40 {
            let major = *r.pick(&[now.0, now.0, now.0, now.0 + 1, now.0 - 1, 866, 867, 868, 869, i32::MAX, 1]);
            let minor = if r.chance(1, 2) { now.1 + r.below(9) as i32 - 4 } else { r.below(60) as i32 };
            let net = now.2.map(|n| if r.chance(1, 2) { n + r.below(7) as i32 - 3 } else { r.below(30) as i32 });
            let v = (major, minor, net);
            let has = major > 865 && minor > 17;
            if v != now && has == net.is_some() && layouts(v) == layouts(now) {
                p.version = Some(v);
                ctx.hit("other versions with the same layouts");
                break;
            }
        }
    }
    let (bytes, want) = derive(&s, &p);
    drop(s);
    let what = format!("{n} as {p:?}");
    let keep = |b: &[u8]| if b.len() < 300_000 { Some(b.to_vec()) } else { None };
    let input = keep(&bytes);
    let Some(got) = ctx.guard("parse", &[], || opts(&bytes, CrcCheck::Always, NetworkParse::Always)) else { return };
    ctx.eval(&bytes, true);
    let g = match got {
        Ok(g) => g,
        Err(e) => return ctx.bad("derived", format!("{what}: not decoded: {e:.300}"), input.as_deref()),
    };
    if let Some(x) = replay_diff(&g, &want, true) {
        return ctx.bad("derived", format!("{what}: {x}"), input.as_deref());
    }
    match invariants(&g) {
        Ok(k) => ctx.add("invariants checked on accepted frames", k as u64),
        Err(m) => return ctx.bad("derived", format!("{what}: {m}"), input.as_deref()),
    }
    let frames = g.network_frames.as_ref().map(|f| f.frames.as_slice()).unwrap_or_default();
    for k in &g.keyframes {
        match frames.get(k.frame as usize) {
            Some(f) if f.time == k.time => ctx.hit("keyframes matched with frames"),
            f => return ctx.bad("derived", format!("{what}: keyframe {k:?} is {:?}", f.map(|f| f.time)), input.as_deref()),
        }
    }
    ctx.hit("derived recordings equal to what follows from the original");
    if frames.len() > 65_536 {
        ctx.hit("recordings of more than 65,536 frames");
        if frames.len() > 100_000 {
            ctx.hit("recordings of more than 100,000 frames")
        }
    }
    ctx.max("frames in one recording", frames.len() as u64);
    ctx.sample(|| json!({"recording": n, "as": format!("{p:?}"), "frames": frames.len()}));
}
