//! Hand-made replays, where a case needs exact control over what is in the file.
use crate::bitio::BitW;
use crate::gen::{has_net, seal, ByteW};
use crate::model::width;
use crate::refdec::V;
use boxcars::*;

#[derive(Clone)]
pub struct Mini {
    pub ver: (i32, i32, i32),
    pub game: String,
    pub props: Vec<(String, HeaderProp)>,
    pub levels: Vec<String>,
    pub objects: Vec<String>,
    /// (object, [(attribute object, stream id)])
    pub caches: Vec<(i32, Vec<(i32, i32)>)>,
    pub net: Vec<u8>,
}
impl Default for Mini {
    fn default() -> Self {
        Mini {
            ver: (868, 32, 10),
            game: "TAGame.Replay_Soccar_TA".into(),
            props: vec![],
            levels: vec![],
            objects: vec![],
            caches: vec![],
            net: vec![],
        }
    }
}
impl Mini {
    pub fn v(&self) -> V {
        V(self.ver.0, self.ver.1, if has_net(self.ver.0, self.ver.1) { self.ver.2 } else { 0 })
    }
    pub fn int(mut self, k: &str, v: i32) -> Self {
        self.props.push((k.into(), HeaderProp::Int(v)));
        self
    }
    pub fn obj(&mut self, n: &str) -> i32 {
        if let Some(i) = self.objects.iter().position(|x| x == n) {
            return i as i32;
        }
        self.objects.push(n.to_string());
        self.objects.len() as i32 - 1
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = ByteW::default();
        h.i32(self.ver.0);
        h.i32(self.ver.1);
        if has_net(self.ver.0, self.ver.1) {
            h.i32(self.ver.2);
        }
        h.str(&self.game);
        put_dict(&mut h, &self.props, self.ver.0 == 0 && self.ver.1 == 0);
        h.0
    }
    pub fn content(&self) -> Vec<u8> {
        let mut c = ByteW::default();
        c.i32(self.levels.len() as i32);
        for x in &self.levels {
            c.str(x);
        }
        c.i32(0); // keyframes
        c.i32(self.net.len() as i32);
        c.raw(&self.net);
        c.i32(0); // debug info
        c.i32(0); // tick marks
        c.i32(0); // packages
        c.i32(self.objects.len() as i32);
        for x in &self.objects {
            put_text(&mut c, x);
        }
        c.i32(0); // names
        c.i32(0); // class index
        c.i32(self.caches.len() as i32);
        for (o, p) in &self.caches {
            c.i32(*o);
            c.i32(0);
            c.i32(0);
            c.i32(p.len() as i32);
            for (a, s) in p {
                c.i32(*a);
                c.i32(*s);
            }
        }
        c.0
    }
    pub fn bytes(&self) -> Vec<u8> {
        seal(&self.header(), &self.content()).0
    }
}

pub fn put_dict(w: &mut ByteW, d: &[(String, HeaderProp)], quirks: bool) {
    for (k, v) in d {
        w.str(k);
        put_prop(w, v, quirks);
    }
    w.str("None");
}
/// text: ASCII as it is, anything else as UTF-16
pub fn put_text(w: &mut ByteW, s: &str) {
    if s.is_ascii() {
        w.str(s)
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        w.i32(-(u.len() as i32 + 1));
        for x in u {
            w.raw(&x.to_le_bytes())
        }
        w.raw(&[0, 0])
    }
}
pub fn put_prop(w: &mut ByteW, v: &HeaderProp, quirks: bool) {
    let kind = |w: &mut ByteW, k: &str| {
        w.str(k);
        w.i32(0);
        w.i32(0);
    };
    match v {
        HeaderProp::Array(a) => {
            kind(w, "ArrayProperty");
            w.i32(a.len() as i32);
            for d in a {
                put_dict(w, d, quirks)
            }
        }
        HeaderProp::Struct { name, fields } => {
            kind(w, "StructProperty");
            w.str(name);
            put_dict(w, fields, quirks)
        }
        HeaderProp::Bool(b) => {
            kind(w, "BoolProperty");
            w.raw(&[*b as u8]);
            if quirks {
                w.raw(&[0, 0, 0]);
            }
        }
        HeaderProp::Byte { kind: k, value } => {
            kind(w, "ByteProperty");
            w.str(k);
            if let Some(v) = value {
                w.str(v)
            }
        }
        HeaderProp::Float(f) => {
            kind(w, "FloatProperty");
            w.f32(*f)
        }
        HeaderProp::Int(f) => {
            kind(w, "IntProperty");
            w.i32(*f)
        }
        HeaderProp::QWord(f) => {
            kind(w, "QWordProperty");
            w.raw(&f.to_le_bytes())
        }
        HeaderProp::Name(f) => {
            kind(w, "NameProperty");
            put_text(w, f)
        }
        HeaderProp::Str(f) => {
            kind(w, "StrProperty");
            put_text(w, f)
        }
    }
}

/// Writes the network stream of a Mini.
pub struct Stream {
    pub b: BitW,
    pub mc: u32,
    pub named: bool,
}
impl Stream {
    pub fn new(m: &Mini, mc: u32) -> Self {
        let v = m.v();
        Stream { b: BitW::default(), mc, named: v >= V(868, 14, 0) }
    }
    pub fn frame(&mut self, t: f32, d: f32) {
        self.b.f32(t);
        self.b.f32(d);
    }
    fn id(&mut self, id: i32) {
        let cb = width(self.mc as u64).max(1) - 1;
        self.b.bit(true);
        self.b.bounded(id as u32 as u64, cb, self.mc as u64);
    }
    /// up to the object id; the trajectory, if any, comes next
    pub fn spawn(&mut self, id: i32, obj: i32) {
        self.id(id);
        self.b.bit(true);
        self.b.bit(true);
        if self.named {
            self.b.i32(7);
        }
        self.b.bit(false);
        self.b.i32(obj);
    }
    pub fn delete(&mut self, id: i32) {
        self.id(id);
        self.b.bit(false);
    }
    pub fn update(&mut self, id: i32) {
        self.id(id);
        self.b.bit(true);
        self.b.bit(false);
    }
    /// `max`: one above the largest stream id of the object
    pub fn attr(&mut self, stream: i32, max: i64) {
        let w = width(max as u64).max(1) - 1;
        self.b.bit(true);
        self.b.bounded(stream as u64, w, max as u64);
    }
    pub fn end_update(&mut self) {
        self.b.bit(false)
    }
    pub fn end_frame(&mut self) {
        self.b.bit(false)
    }
}

/// One actor of class TAGame.RBActor_TA (spawned with location and rotation) and id 1 in the given
/// version, holding attribute `name` at stream id `sid` among `max - 1` ids. The stream ends
/// right before the attribute's value.
pub fn one_attr(ver: (i32, i32, i32), name: &str, sid: i32, lan: bool) -> (Mini, Stream, i32) {
    let mut m = Mini { ver, ..Default::default() };
    let car = m.obj("TAGame.RBActor_TA");
    let a = m.obj(name);
    m.caches.push((car, vec![(a, sid)]));
    if lan {
        m.props.push(("MatchType".into(), HeaderProp::Name("Lan".into())));
    }
    let mut s = Stream::new(&m, 1023);
    if lan {
        s.named = m.v() >= V(868, 20, 0);
    }
    s.frame(1.0, 0.5);
    s.spawn(1, car);
    let net = m.v().2;
    crate::gen::enc_vec_raw(&mut s.b, net, 0, [2, 2, 2]);
    for _ in 0..3 {
        s.b.bit(false);
    }
    s.update(1);
    s.attr(sid, sid as i64 + 1);
    (m, s, a)
}
