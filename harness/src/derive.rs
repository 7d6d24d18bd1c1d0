//! Recordings made from genuine ones: the same events written down with other numbers (actor ids, channel
//! counts, stream ids), for longer or shorter, in other text encodings. What they decode to follows from
//! what the genuine one decodes to.
use crate::bitio::{BitR, BitW};
use crate::gen::{seal, ByteW};
use crate::mini::{put_dict, put_text};
use crate::model::{width, Tag};
use crate::refdec::{self, Ev, Trace};
use boxcars::*;
use std::collections::{BTreeMap, HashMap};

pub struct Source {
    pub name: &'static str,
    pub replay: Replay,
    pub net: Vec<u8>,
    pub trace: Trace,
    pub max_channels: u32,
    pub max_id: i32,
}
pub fn source(name: &'static str, d: &'static [u8]) -> Option<Source> {
    let out = refdec::reference(d, CrcCheck::OnError, NetworkParse::Always);
    let replay = out.result.ok()?;
    let mc = replay.properties.iter().find(|p| p.0 == "MaxChannels").and_then(|p| p.1.as_i32()).map_or(1023, |x| x as u32);
    let mut max_id = 0;
    for f in replay.network_frames.iter().flat_map(|f| &f.frames) {
        for a in &f.new_actors {
            max_id = max_id.max(a.actor_id.0)
        }
        for a in &f.deleted_actors {
            max_id = max_id.max(a.0)
        }
    }
    Some(Source { name, net: out.network?.1.to_vec(), trace: out.trace, replay, max_channels: mc, max_id })
}

#[derive(Debug, Clone, Default)]
pub struct Plan {
    pub repeat: usize,
    pub keep: Option<usize>,
    /// join this many frames into one (0 and 1: leave them)
    pub merge: usize,
    /// frames of nothing at the end
    pub idle: usize,
    /// declare more frames than there are and end the stream with the all-zero frame
    pub declare_more: i32,
    pub max_channels: Option<u32>,
    pub id_offset: i32,
    pub id_reverse: bool,
    pub stream_scale: i32,
    pub stream_shift: i32,
    /// one more property, with a larger stream id, for every class whose index is a multiple of this
    pub widen: Option<(usize, i32)>,
    pub more_objects: usize,
    pub unpacked: bool,
    /// another order of the objects
    pub permute: Option<u64>,
    pub shuffle_cache: Option<u64>,
    /// another version with the same layouts
    pub version: Option<(i32, i32, Option<i32>)>,
}


/// the file that holds exactly this replay, around the given network data
pub fn encode(r: &mut Replay, net: &[u8]) -> Vec<u8> {
    let mut h = ByteW::default();
    h.i32(r.major_version);
    h.i32(r.minor_version);
    if let Some(n) = r.net_version {
        h.i32(n)
    }
    put_text(&mut h, &r.game_type);
    put_dict(&mut h, &r.properties, r.major_version == 0 && r.minor_version == 0 && r.net_version.is_none());
    let mut c = ByteW::default();
    c.i32(r.levels.len() as i32);
    r.levels.iter().for_each(|x| put_text(&mut c, x));
    c.i32(r.keyframes.len() as i32);
    for k in &r.keyframes {
        c.f32(k.time);
        c.i32(k.frame);
        c.i32(k.position);
    }
    c.i32(net.len() as i32);
    c.raw(net);
    c.i32(r.debug_info.len() as i32);
    for x in &r.debug_info {
        c.i32(x.frame);
        put_text(&mut c, &x.user);
        put_text(&mut c, &x.text);
    }
    c.i32(r.tick_marks.len() as i32);
    for x in &r.tick_marks {
        put_text(&mut c, &x.description);
        c.i32(x.frame);
    }
    for l in [&r.packages, &r.objects, &r.names] {
        c.i32(l.len() as i32);
        l.iter().for_each(|x| put_text(&mut c, x));
    }
    c.i32(r.class_indices.len() as i32);
    for x in &r.class_indices {
        c.str(&x.class);
        c.i32(x.index);
    }
    c.i32(r.net_cache.len() as i32);
    for x in &r.net_cache {
        c.i32(x.object_ind);
        c.i32(x.parent_id);
        c.i32(x.cache_id);
        c.i32(x.properties.len() as i32);
        for p in &x.properties {
            c.i32(p.object_ind);
            c.i32(p.stream_id);
        }
    }
    let (d, hr, cr) = seal(&h.0, &c.0);
    r.header_size = (hr.1 - hr.0) as i32;
    r.header_crc = crate::refdec::crc(&h.0);
    r.content_size = (cr.1 - cr.0) as i32;
    r.content_crc = crate::refdec::crc(&c.0);
    d
}

/// which layout a version has, at each point where it matters
pub fn layouts(v: (i32, i32, Option<i32>)) -> Vec<bool> {
    let net = v.2.unwrap_or(0);
    let t = (v.0, v.1, net);
    let mut l: Vec<bool> = [(868, 12, 0), (868, 14, 0), (868, 18, 0), (868, 20, 0), (868, 23, 8)].iter().map(|b| t >= *b).collect();
    l.extend([1, 7, 10].iter().map(|b| net >= *b));
    l.push(v.2.is_some());
    l.push(v.0 == 0 && v.1 == 0 && v.2.is_none());
    l
}

fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut r = crate::rng::Rng::new(seed);
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, r.usize(i + 1))
    }
    v
}

/// Per object: the width of its property ids and their largest
fn limits(r: &Replay) -> HashMap<i32, (u32, u64)> {
    let hdr = hdr(r);
    let cfg = refdec::netcfg(&hdr, &r.objects, &r.net_cache).ok().expect("class tables of a genuine recording");
    let mut m = HashMap::new();
    for (i, x) in cfg.model.info.iter().enumerate() {
        if let Some(x) = x {
            m.insert(i as i32, (x.id_bits(), x.max as u64));
        }
    }
    m
}
fn hdr(r: &Replay) -> refdec::Hdr {
    refdec::Hdr {
        major: r.major_version,
        minor: r.minor_version,
        net: r.net_version,
        game_type: r.game_type.clone(),
        props: r.properties.clone(),
        max_depth: 0,
    }
}

pub fn derive(s: &Source, p: &Plan) -> (Vec<u8>, Replay) {
    let mut r = s.replay.clone();
    let old_limits = limits(&r);
    let new_mc = p.max_channels.unwrap_or(s.max_channels);
    let map_id = |id: i32| -> i32 {
        let x = if p.id_reverse { s.max_id - id } else { id };
        x + p.id_offset
    };
    let map_sid = |x: i32| x * p.stream_scale.max(1) + p.stream_shift;
    for (i, c) in r.net_cache.iter_mut().enumerate() {
        for x in &mut c.properties {
            x.stream_id = map_sid(x.stream_id)
        }
        if let Some((every, sid)) = p.widen {
            if i % every == 0 {
                c.properties.push(CacheProp { object_ind: 0, stream_id: map_sid(sid) })
            }
        }
    }
    // new place of each object
    let mut place: Vec<i32> = (0..r.objects.len() as i32).collect();
    let distinct = r.objects.iter().collect::<std::collections::HashSet<_>>().len() == r.objects.len();
    if let (Some(seed), true, true) = (p.permute, distinct, r.objects.len() > 2) {
        let mut v = shuffled(r.objects.len(), seed);
        // the places at both ends go to what actors are made of, or what they have as attributes
        let mut used: Vec<usize> = s.replay.network_frames.iter().flat_map(|f| &f.frames).flat_map(|f| f.new_actors.iter().map(|a| a.object_id.0).chain(f.updated_actors.iter().map(|u| u.object_id.0))).map(|o| o as usize).collect();
        used.sort_unstable();
        used.dedup();
        if used.len() > 1 {
            let at = (seed >> 7) as usize % used.len();
            for (o, to) in [(used[at], 0), (used[(at + 1) % used.len()], v.len() - 1)] {
                let was = v.iter().position(|x| *x == to).unwrap();
                v.swap(was, o)
            }
        }
        let old = r.objects.clone();
        for (i, j) in v.iter().enumerate() {
            place[i] = *j as i32;
            r.objects[*j] = old[i].clone();
        }
    }
    let map_obj = |o: i32| place.get(o as usize).copied().unwrap_or(o);
    for c in r.net_cache.iter_mut() {
        c.object_ind = map_obj(c.object_ind);
        for x in &mut c.properties {
            x.object_ind = map_obj(x.object_ind)
        }
    }
    for c in r.class_indices.iter_mut() {
        c.index = map_obj(c.index)
    }
    if let Some(seed) = p.shuffle_cache {
        // one list per class: their order says nothing
        let v = shuffled(r.net_cache.len(), seed);
        let mut seen = std::collections::HashSet::new();
        if r.net_cache.iter().all(|c| seen.insert(c.object_ind)) {
            r.net_cache = v.iter().map(|i| r.net_cache[*i].clone()).collect();
        }
    }
    if let Some(v) = p.version {
        (r.major_version, r.minor_version, r.net_version) = v
    }
    for i in 0..p.more_objects {
        r.objects.push(format!("Unused.Thing{i}"));
        r.names.push(format!("unused{i}"));
        r.packages.push("Ünüsed".to_string());
    }
    if let Some(mc) = p.max_channels {
        if let Some(x) = r.properties.iter_mut().find(|x| x.0 == "MaxChannels") {
            x.1 = HeaderProp::Int(mc as i32)
        } else {
            r.properties.push(("MaxChannels".into(), HeaderProp::Int(mc as i32)))
        }
    }
    let Some(nf) = s.replay.network_frames.as_ref() else {
        let d = encode(&mut r, &s.net);
        return (d, r);
    };
    let new_limits = limits(&r);
    let old_hdr = hdr(&s.replay);
    let old_cfg = refdec::netcfg(&old_hdr, &s.replay.objects, &s.replay.net_cache).ok().unwrap();
    let named = old_cfg.v >= refdec::V(868, 20, 0) || (old_cfg.v >= refdec::V(868, 14, 0) && !old_cfg.is_lan);
    let old_cb = width(s.max_channels as u64).max(1) - 1;
    let new_cb = width(new_mc as u64).max(1) - 1;
    let keep = p.keep.unwrap_or(nf.frames.len()).min(nf.frames.len());
    let span = nf.frames.get(..keep).and_then(|f| f.last()).map_or(0.0, |f| f.time as f64) + 1.0;
    let mut w = BitW::default();
    let mut frames: Vec<Frame> = vec![];
    let mut actors: BTreeMap<i32, i32> = Default::default();
    let merge = p.merge.max(1);
    for rep in 0..p.repeat.max(1) {
        let mut ev = s.trace.ev.iter().peekable();
        for (at_frame, f) in nf.frames[..keep].iter().enumerate() {
            let (first, last) = (at_frame % merge == 0, at_frame % merge == merge - 1 || at_frame + 1 == keep);
            let time = if rep == 0 { f.time } else { (f.time as f64 + rep as f64 * span) as f32 };
            let mut g = f.clone();
            g.time = time;
            let at = ev.next().unwrap();
            assert!(at.0 == Ev::FrameStart);
            if first {
                w.f32(time);
                w.f32(f.delta);
            }
            let mut rd = BitR { d: &s.net, pos: at.2 };
            let mut news = f.new_actors.iter();
            let copy = |w: &mut BitW, rd: &mut BitR, to: usize| {
                while rd.pos < to {
                    let n = (to - rd.pos).min(64) as u32;
                    let v = rd.bits(n).unwrap();
                    w.bits(v, n);
                }
            };
            loop {
                let more = rd.bit().unwrap();
                if more || last {
                    w.bit(more)
                }
                if !more {
                    assert!(ev.next().unwrap().0 == Ev::FrameEnd);
                    break;
                }
                let id = rd.bounded(old_cb, s.max_channels as u64).unwrap() as i32;
                w.bounded(map_id(id) as u32 as u64, new_cb, new_mc as u64);
                let alive = rd.bit().unwrap();
                w.bit(alive);
                if !alive {
                    assert!(ev.next().unwrap().0 == Ev::Delete);
                    continue;
                }
                let new = rd.bit().unwrap();
                w.bit(new);
                if new {
                    let e = ev.next().unwrap();
                    assert!(e.0 == Ev::Spawn);
                    let to = rd.pos + if named { 33 } else { 1 };
                    copy(&mut w, &mut rd, to);
                    let o = rd.i32().unwrap();
                    w.i32(map_obj(o));
                    copy(&mut w, &mut rd, e.2);
                    actors.insert(id, news.next().unwrap().object_id.0);
                    continue;
                }
                let o = actors[&id];
                let n = &new_limits[&map_obj(o)];
                let ((ob, om), (nb, nm)) = (old_limits[&o], *n);
                loop {
                    let more = rd.bit().unwrap();
                    w.bit(more);
                    if !more {
                        break;
                    }
                    let sid = rd.bounded(ob, om).unwrap() as i32;
                    w.bounded(map_sid(sid) as u64, nb, nm);
                    let e = ev.next().unwrap();
                    let Ev::Attr(tag) = e.0 else { panic!() };
                    let lists = match tag {
                        Tag::LoadoutOnline => 1,
                        Tag::LoadoutsOnline => 2,
                        _ => 0,
                    };
                    for _ in 0..lists {
                        // products say which object they are
                        let n = rd.u8().unwrap();
                        w.u8(n);
                        for _ in 0..n {
                            let m = rd.u8().unwrap();
                            w.u8(m);
                            for _ in 0..m {
                                let mut end = rd.clone();
                                old_cfg.product(&mut end).unwrap();
                                w.bit(rd.bit().unwrap());
                                w.i32(map_obj(rd.i32().unwrap()));
                                copy(&mut w, &mut rd, end.pos);
                            }
                        }
                    }
                    copy(&mut w, &mut rd, e.2);
                }
            }
            for a in &mut g.new_actors {
                a.actor_id.0 = map_id(a.actor_id.0);
                a.object_id.0 = map_obj(a.object_id.0)
            }
            for a in &mut g.deleted_actors {
                a.0 = map_id(a.0)
            }
            for u in &mut g.updated_actors {
                u.actor_id.0 = map_id(u.actor_id.0);
                u.stream_id.0 = map_sid(u.stream_id.0);
                u.object_id.0 = map_obj(u.object_id.0);
                let products = |l: &mut Vec<Vec<Product>>| l.iter_mut().flatten().for_each(|p| p.object_ind.0 = map_obj(p.object_ind.0));
                match &mut u.attribute {
                    Attribute::LoadoutOnline(l) => products(l),
                    Attribute::LoadoutsOnline(l) => {
                        products(&mut l.blue);
                        products(&mut l.orange)
                    }
                    _ => {}
                }
            }
            if first {
                frames.push(g)
            } else {
                let into = frames.last_mut().unwrap();
                into.new_actors.append(&mut g.new_actors);
                into.deleted_actors.append(&mut g.deleted_actors);
                into.updated_actors.append(&mut g.updated_actors);
            }
        }
    }
    let last = frames.last().map_or(0.0, |f| f.time);
    for k in 0..p.idle {
        // half an hour of them at most, lest they run into what a time can be
        let time = last + (k + 1) as f32 / 512.0;
        w.f32(time);
        w.f32(1.0 / 512.0);
        w.bit(false);
        frames.push(Frame { time, delta: 1.0 / 512.0, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] });
    }
    let mut declared = frames.len() as i32;
    if p.declare_more > 0 {
        w.u64(0);
        declared = (declared + p.declare_more).min(w.b.len() as i32);
    }
    for x in r.properties.iter_mut().filter(|x| x.0 == "NumFrames") {
        x.1 = HeaderProp::Int(declared)
    }
    // keyframes go with the frames they name
    let ks = std::mem::take(&mut r.keyframes);
    for rep in 0..p.repeat.max(1) {
        for k in &ks {
            let at = k.frame as usize;
            if at < keep && at % merge == 0 && r.keyframes.len() < 25_000 {
                let n = at / merge + rep * keep.div_ceil(merge);
                r.keyframes.push(KeyFrame { time: frames[n].time, frame: n as i32, position: k.position })
            }
        }
    }
    r.tick_marks.retain(|t| t.frame < keep as i32);
    if p.unpacked {
        for _ in 0..64 {
            w.u8(0x5a)
        }
    }
    r.network_frames = Some(NetworkFrames { frames });
    let d = encode(&mut r, &w.b);
    (d, r)
}
