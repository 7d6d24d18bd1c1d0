//! Reference decoder: the replay format written down once more, as plainly as possible, reading
//! one bit at a time. It shares no code with boxcars except the public result types.
use crate::bitio::BitR;
use crate::model::{resolve, CacheIn, ObjModel, Spawn, Tag};
use boxcars::*;
use std::collections::HashMap;

pub const MAX_LIST: usize = 25_000;
pub const MAX_TEXT: i32 = 10_000;
pub const MAX_NET_TEXT: usize = 1024;
/// nesting that has to be accepted; anything deeper may be accepted or refused
pub const NEST_OK: usize = 32;

// ---------------------------------------------------------------- text

const W1252_HI: [u16; 32] = [
    0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D,
    0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A,
    0x0153, 0x9D, 0x017E, 0x0178,
];
pub fn w1252_char(b: u8) -> char {
    if (0x80..0xa0).contains(&b) {
        char::from_u32(W1252_HI[(b - 0x80) as usize] as u32).unwrap()
    } else {
        b as char
    }
}
pub fn w1252(d: &[u8]) -> String {
    d.iter().map(|b| w1252_char(*b)).collect()
}
/// UTF-16LE; anything that is not half of a proper pair becomes U+FFFD
pub fn utf16(d: &[u8]) -> String {
    let u: Vec<u16> = d.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
    let mut s = String::new();
    let mut i = 0;
    while i < u.len() {
        let c = u[i] as u32;
        if (0xD800..0xDC00).contains(&c) && i + 1 < u.len() && (0xDC00..0xE000).contains(&(u[i + 1] as u32)) {
            s.push(char::from_u32(0x10000 + ((c - 0xD800) << 10) + (u[i + 1] as u32 - 0xDC00)).unwrap());
            i += 2;
        } else {
            s.push(char::from_u32(c).unwrap_or('\u{FFFD}'));
            i += 1;
        }
    }
    s
}

// ---------------------------------------------------------------- crc

/// CRC-32, polynomial 0x04c11db7, most significant bit first, register 0x10340dfe, final xor ~0
pub fn crc(d: &[u8]) -> u32 {
    let mut r: u32 = 0x1034_0dfe;
    for b in d {
        r ^= (*b as u32) << 24;
        for _ in 0..8 {
            r = if r & 0x8000_0000 != 0 { (r << 1) ^ 0x04c1_1db7 } else { r << 1 };
        }
    }
    !r
}

// ---------------------------------------------------------------- byte level

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub p: usize,
}
type PR<T> = Result<T, ParseError>;
/// errors report places and amounts as 32-bit numbers: beyond that, the largest
fn sat(n: usize) -> i32 {
    n.min(i32::MAX as usize) as i32
}
impl<'a> Cur<'a> {
    fn left(&self) -> usize {
        self.d.len() - self.p
    }
    fn short(&self, n: usize) -> ParseError {
        ParseError::InsufficientData(n as i32, sat(self.left()))
    }
    fn take(&mut self, n: usize) -> PR<&'a [u8]> {
        if n > self.left() {
            return Err(self.short(n));
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn raw_i32(&mut self) -> PR<i32> {
        let b = self.take(4)?;
        Ok((b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24) as i32)
    }
    fn raw_f32(&mut self) -> PR<f32> {
        self.raw_i32().map(|x| f32::from_bits(x as u32))
    }
    fn sec<T>(&self, name: &'static str, r: PR<T>) -> PR<T> {
        r.map_err(|e| ParseError::ParseError(name, sat(self.p), Box::new(e)))
    }
    fn sec_i32(&mut self, name: &'static str) -> PR<i32> {
        let r = self.raw_i32();
        self.sec(name, r)
    }
    fn str(&mut self) -> PR<String> {
        let n = self.raw_i32()?;
        let d = self.take(n as usize)?;
        let d = if d.is_empty() { d } else { &d[..d.len() - 1] };
        std::str::from_utf8(d).map(|s| s.to_string()).map_err(ParseError::Utf8Error)
    }
    fn text(&mut self) -> PR<String> {
        let n = self.raw_i32()?;
        if n > MAX_TEXT || n < -MAX_TEXT {
            return Err(ParseError::TextTooLarge(n));
        }
        if n < 0 {
            let d = self.take(2 * (-n) as usize)?;
            Ok(utf16(&d[..d.len() - 2]))
        } else if n == 0 {
            Ok(String::new())
        } else {
            let d = self.take(n as usize)?;
            Ok(w1252(&d[..d.len() - 1]))
        }
    }
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> PR<T>) -> PR<Vec<T>> {
        let n = self.raw_i32()?;
        if n < 0 || n as usize > MAX_LIST {
            return Err(ParseError::ListTooLarge(n as usize));
        }
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?)
        }
        Ok(v)
    }
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub major: i32,
    pub minor: i32,
    pub net: Option<i32>,
    pub game_type: String,
    pub props: Vec<(String, HeaderProp)>,
    pub max_depth: usize,
}
impl Hdr {
    fn find(&self, k: &str) -> Option<&HeaderProp> {
        self.props.iter().find(|p| p.0 == k).map(|p| &p.1)
    }
    pub fn int(&self, k: &str) -> Option<i32> {
        match self.find(k) {
            Some(HeaderProp::Int(x)) => Some(*x),
            _ => None,
        }
    }
    pub fn text(&self, k: &str) -> Option<&str> {
        match self.find(k) {
            Some(HeaderProp::Str(x)) | Some(HeaderProp::Name(x)) => Some(x),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct V(pub i32, pub i32, pub i32);

fn props(c: &mut Cur, quirks: bool, depth: usize, maxd: &mut usize) -> PR<Vec<(String, HeaderProp)>> {
    *maxd = (*maxd).max(depth);
    if depth > 300 {
        // the caller only compares error-ness beyond NEST_OK
        return Err(ParseError::UnexpectedProperty("nested too deeply".into()));
    }
    let mut out = vec![];
    loop {
        let key = c.str()?;
        if key == "None" {
            return Ok(out);
        }
        let kind = c.str()?;
        c.sec_i32("property size")?;
        c.take(4)?;
        let v = match kind.as_str() {
            "BoolProperty" => HeaderProp::Bool(c.take(if quirks { 4 } else { 1 })?[0] == 1),
            "ByteProperty" if quirks => HeaderProp::Byte { kind: c.text()?, value: None },
            "ByteProperty" => {
                let kind = c.str()?;
                if kind == "None" {
                    c.take(1)?;
                    continue;
                }
                HeaderProp::Byte { kind, value: Some(c.str()?) }
            }
            "ArrayProperty" => {
                let n = c.sec_i32("array property size")?;
                if n < 0 || n as usize > MAX_LIST {
                    return Err(ParseError::ListTooLarge(n as usize));
                }
                let mut a = vec![];
                for _ in 0..n {
                    a.push(props(c, quirks, depth + 1, maxd)?)
                }
                HeaderProp::Array(a)
            }
            "FloatProperty" => HeaderProp::Float(c.raw_f32()?),
            "IntProperty" => HeaderProp::Int(c.raw_i32()?),
            "QWordProperty" => {
                let b = c.take(8)?;
                HeaderProp::QWord(b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64))
            }
            "NameProperty" => HeaderProp::Name(c.text()?),
            "StrProperty" => HeaderProp::Str(c.text()?),
            "StructProperty" => {
                let name = c.str()?;
                HeaderProp::Struct { name, fields: props(c, quirks, depth + 1, maxd)? }
            }
            x => return Err(ParseError::UnexpectedProperty(x.to_string())),
        };
        out.push((key, v));
    }
}

fn header(c: &mut Cur, maxd: &mut usize) -> PR<Hdr> {
    let major = c.sec_i32("major version")?;
    let minor = c.sec_i32("minor version")?;
    let net = if major > 865 && minor > 17 { Some(c.sec_i32("net version")?) } else { None };
    let g = c.text();
    let game_type = c.sec("game type", g)?;
    let p = props(c, major == 0 && minor == 0 && net.is_none(), 0, maxd);
    let props = c.sec("header properties", p)?;
    Ok(Hdr { major, minor, net, game_type, props, max_depth: *maxd })
}

pub struct Body<'a> {
    pub levels: Vec<String>,
    pub keyframes: Vec<KeyFrame>,
    pub debug_info: Vec<DebugInfo>,
    pub tick_marks: Vec<TickMark>,
    pub packages: Vec<String>,
    pub objects: Vec<String>,
    pub names: Vec<String>,
    pub class_indices: Vec<ClassIndex>,
    pub net_cache: Vec<ClassNetCache>,
    pub network: &'a [u8],
    pub network_at: usize,
}

fn body<'a>(c: &mut Cur<'a>) -> PR<Body<'a>> {
    let r = c.list(|c| c.text());
    let levels = c.sec("levels", r)?;
    let r = c.list(|c| {
        Ok(KeyFrame { time: c.raw_f32()?, frame: c.raw_i32()?, position: c.raw_i32()? })
    });
    let keyframes = c.sec("keyframes", r)?;
    let n = c.sec_i32("network size")?;
    let network_at = c.p;
    let r = c.take(n as usize);
    let network = c.sec("network data", r)?;
    let r = c.list(|c| Ok(DebugInfo { frame: c.raw_i32()?, user: c.text()?, text: c.text()? }));
    let debug_info = c.sec("debug info", r)?;
    let r = c.list(|c| Ok(TickMark { description: c.text()?, frame: c.raw_i32()? }));
    let tick_marks = c.sec("tickmarks", r)?;
    let r = c.list(|c| c.text());
    let packages = c.sec("packages", r)?;
    let r = c.list(|c| c.text());
    let objects = c.sec("objects", r)?;
    let r = c.list(|c| c.text());
    let names = c.sec("names", r)?;
    let r = c.list(|c| Ok(ClassIndex { class: c.str()?, index: c.raw_i32()? }));
    let class_indices = c.sec("class index", r)?;
    let r = c.list(|c| {
        Ok(ClassNetCache {
            object_ind: c.raw_i32()?,
            parent_id: c.raw_i32()?,
            cache_id: c.raw_i32()?,
            properties: c.list(|c| Ok(CacheProp { object_ind: c.raw_i32()?, stream_id: c.raw_i32()? }))?,
        })
    });
    let net_cache = c.sec("net cache", r)?;
    Ok(Body { levels, keyframes, debug_info, tick_marks, packages, objects, names, class_indices, net_cache, network, network_at })
}

// ---------------------------------------------------------------- network

#[derive(Debug, Clone, PartialEq)]
pub enum NetErr {
    TooManyFrames(i32),
    StreamTooLarge(i32, i32),
    Frame(FrameError, NetCtx),
}
/// where the decoder stood when the stream went wrong
#[derive(Debug, Clone, PartialEq)]
pub struct NetCtx {
    pub frames_done: usize,
    pub last_time: Option<(f32, f32)>,
    pub last_update: Option<UpdatedAttribute>,
    pub last_new: Option<NewActor>,
    pub prev: Option<(usize, Frame)>,
    /// live actors and what they are
    pub actors: HashMap<i32, i32>,
    /// for a property without meaning: what the actor's object has under that id
    pub own: Option<i32>,
    /// and what any object has
    pub same_id: Vec<i32>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ev {
    FrameStart,
    Spawn,
    Delete,
    Attr(Tag),
    FrameEnd,
}

#[derive(Default)]
pub struct Trace {
    /// (event, first bit, one past the last bit)
    pub ev: Vec<(Ev, usize, usize)>,
    pub update_after_delete: usize,
    pub end_bit: usize,
}

pub struct NetCfg<'a> {
    pub v: V,
    pub is_lan: bool,
    pub is_223: bool,
    pub frames: Option<i32>,
    pub max_channels: u32,
    pub objects: &'a [String],
    pub model: ObjModel,
    pub prod: [i32; 5],
}

pub fn netcfg<'a>(h: &Hdr, objects: &'a [String], caches: &[ClassNetCache]) -> Result<NetCfg<'a>, NetErr> {
    let caches: Vec<CacheIn> = caches
        .iter()
        .map(|c| CacheIn { object_ind: c.object_ind, props: c.properties.iter().map(|p| (p.object_ind, p.stream_id)).collect() })
        .collect();
    let model = resolve(objects, &caches).map_err(|(s, o)| NetErr::StreamTooLarge(s, o))?;
    let id = |n: &str| model.first.get(n).map(|x| *x as i32).unwrap_or(0);
    let prod = [
        id("TAGame.ProductAttribute_UserColor_TA"),
        id("TAGame.ProductAttribute_Painted_TA"),
        id("TAGame.ProductAttribute_TitleID_TA"),
        id("TAGame.ProductAttribute_SpecialEdition_TA"),
        id("TAGame.ProductAttribute_TeamEdition_TA"),
    ];
    Ok(NetCfg {
        v: V(h.major, h.minor, h.net.unwrap_or(0)),
        is_lan: h.text("MatchType") == Some("Lan"),
        is_223: h.text("BuildVersion").map_or(false, |b| b >= "221120.42953.406184"),
        frames: h.int("NumFrames"),
        max_channels: h.int("MaxChannels").map_or(1023, |x| x as u32),
        objects,
        model,
        prod,
    })
}

pub fn vec3i(r: &mut BitR, net: i32) -> Option<Vector3i> {
    let s = r.bounded(4, if net >= 7 { 22 } else { 20 })?;
    let bias = 1i64 << (s + 1);
    let w = s as u32 + 2;
    let x = r.bits(w)? as i64 - bias;
    let y = r.bits(w)? as i64 - bias;
    let z = r.bits(w)? as i64 - bias;
    Some(Vector3i { x: x as i32, y: y as i32, z: z as i32 })
}
pub fn v3f(v: Vector3i) -> Vector3f {
    Vector3f { x: v.x as f32 / 100.0, y: v.y as f32 / 100.0, z: v.z as f32 / 100.0 }
}
pub fn vec3f(r: &mut BitR, net: i32) -> Option<Vector3f> {
    vec3i(r, net).map(v3f)
}
pub fn rotation(r: &mut BitR) -> Option<Rotation> {
    let mut one = || -> Option<Option<i8>> {
        if r.bit()? {
            Some(Some(r.u8()? as i8))
        } else {
            Some(None)
        }
    };
    Some(Rotation { yaw: one()?, pitch: one()?, roll: one()? })
}
pub fn quat_val(largest: u64, raw: [u32; 3]) -> Quaternion {
    let f = |v: u32| (v as f32 / 262143.0 - 0.5) * 2.0 * std::f32::consts::FRAC_1_SQRT_2;
    let (a, b, c) = (f(raw[0]), f(raw[1]), f(raw[2]));
    let e = (c.mul_add(-c, b.mul_add(-b, a.mul_add(-a, 1.0)))).sqrt();
    let [x, y, z, w] = match largest {
        0 => [e, a, b, c],
        1 => [a, e, b, c],
        2 => [a, b, e, c],
        _ => [a, b, c, e],
    };
    Quaternion { x, y, z, w }
}
pub fn quat_old_val(raw: [u32; 3]) -> Quaternion {
    let f = |v: u32| (v as i32 - 32768) as f32 * (32767.0f32).recip();
    Quaternion { x: f(raw[0]), y: f(raw[1]), z: f(raw[2]), w: 0.0 }
}
pub fn quat(r: &mut BitR, net: i32) -> Option<Quaternion> {
    if net >= 7 {
        let l = r.bits(2)?;
        Some(quat_val(l, [r.bits(18)? as u32, r.bits(18)? as u32, r.bits(18)? as u32]))
    } else {
        Some(quat_old_val([r.bits(16)? as u32, r.bits(16)? as u32, r.bits(16)? as u32]))
    }
}

type AR<T> = Result<T, AttributeError>;
fn nd<T>(what: &'static str, x: Option<T>) -> AR<T> {
    x.ok_or(AttributeError::NotEnoughDataFor(what))
}

fn net_text(r: &mut BitR) -> AR<String> {
    let n = nd("text string", r.i32())?;
    if n == 0 {
        return Ok(String::new());
    }
    let bytes = if n < 0 { -(n as i64) * 2 } else { n as i64 };
    let too = Err(AttributeError::TooBigString(n));
    if bytes > MAX_NET_TEXT as i64 {
        return too;
    }
    let Some(d) = r.bytes(bytes as usize) else { return too };
    Ok(if n < 0 { utf16(&d[..d.len() - 2]) } else { w1252(&d[..d.len() - 1]) })
}

fn remote(r: &mut BitR, net: i32, sys: u8) -> AR<UniqueId> {
    let remote_id = match sys {
        0 => RemoteId::SplitScreen(nd("SplitScreen", r.bits(24))? as u32),
        1 => RemoteId::Steam(nd("Steam", r.u64())?),
        2 => {
            let raw = nd("PS4 Name", r.bytes(16))?;
            let end = raw.iter().position(|x| *x == 0).unwrap_or(16);
            let unknown1 = nd("PS4 Unknown", r.bytes(if net >= 1 { 16 } else { 8 }))?;
            RemoteId::PlayStation(Ps4Id { name: w1252(&raw[..end]), unknown1, online_id: nd("PS4 ID", r.u64())? })
        }
        4 => RemoteId::Xbox(nd("Xbox", r.u64())?),
        5 => RemoteId::QQ(nd("QQ ID", r.u64())?),
        6 => {
            let online_id = nd("Switch ID", r.u64())?;
            RemoteId::Switch(SwitchId { online_id, unknown1: nd("Switch ID Unknown", r.bytes(24))? })
        }
        7 => {
            let online_id = nd("PsyNet ID", r.u64())?;
            let unknown1 = if net < 10 { nd("PsyNet ID Unknown", r.bytes(24))? } else { vec![] };
            RemoteId::PsyNet(PsyNetId { online_id, unknown1 })
        }
        11 => RemoteId::Epic(net_text(r)?),
        x => return Err(AttributeError::UnrecognizedRemoteId(x)),
    };
    Ok(UniqueId { system_id: sys, remote_id, local_id: nd("UniqueId local_id", r.u8())? })
}
fn unique(r: &mut BitR, net: i32) -> AR<UniqueId> {
    let s = nd("System id", r.u8())?;
    remote(r, net, s)
}

fn loadout(r: &mut BitR) -> Option<Loadout> {
    let version = r.u8()?;
    let mut l = Loadout {
        version,
        body: r.u32()?, decal: r.u32()?, wheels: r.u32()?, rocket_trail: r.u32()?,
        antenna: r.u32()?, topper: r.u32()?, unknown1: r.u32()?,
        unknown2: None, engine_audio: None, trail: None, goal_explosion: None, banner: None, product_id: None,
    };
    if version > 10 {
        l.unknown2 = Some(r.u32()?);
    }
    if version >= 16 {
        l.engine_audio = Some(r.u32()?);
        l.trail = Some(r.u32()?);
        l.goal_explosion = Some(r.u32()?);
    }
    if version >= 17 {
        l.banner = Some(r.u32()?);
    }
    if version >= 19 {
        l.product_id = Some(r.u32()?);
    }
    if version >= 22 {
        r.bits(32)?;
        r.bits(32)?;
        r.bits(32)?;
    }
    Some(l)
}
fn active(r: &mut BitR) -> Option<ActiveActor> {
    Some(ActiveActor { active: r.bit()?, actor: ActorId(r.i32()?) })
}
fn explosion(r: &mut BitR, net: i32) -> Option<Explosion> {
    Some(Explosion { flag: r.bit()?, actor: ActorId(r.i32()?), location: vec3f(r, net)? })
}

impl NetCfg<'_> {
    pub fn product(&self, r: &mut BitR) -> Option<Product> {
        let unknown = r.bit()?;
        let o = r.i32()?;
        let new_paint = self.v >= V(868, 18, 0);
        let [color, paint, title, special, team] = self.prod;
        let value = if o == color {
            if self.v >= V(868, 23, 8) {
                ProductValue::NewColor(r.u32()?)
            } else if r.bit()? {
                ProductValue::OldColor(r.bits(31)? as u32)
            } else {
                ProductValue::NoColor
            }
        } else if o == paint {
            if new_paint {
                ProductValue::NewPaint(r.bits(31)? as u32)
            } else {
                ProductValue::OldPaint(r.bounded(3, 14)? as u32)
            }
        } else if o == title {
            ProductValue::Title(net_text(r).ok()?)
        } else if o == special {
            ProductValue::SpecialEdition(r.bits(31)? as u32)
        } else if o == team {
            if new_paint {
                ProductValue::NewTeamEdition(r.bits(31)? as u32)
            } else {
                ProductValue::OldTeamEdition(r.bounded(3, 14)? as u32)
            }
        } else {
            ProductValue::Absent
        };
        Some(Product { unknown, object_ind: ObjectId(o), value })
    }
    fn online(&self, r: &mut BitR) -> Option<Vec<Vec<Product>>> {
        let n = r.u8()?;
        let mut a = vec![];
        for _ in 0..n {
            let m = r.u8()?;
            let mut b = vec![];
            for _ in 0..m {
                b.push(self.product(r)?)
            }
            a.push(b)
        }
        Some(a)
    }

    pub fn attr(&self, t: Tag, r: &mut BitR) -> AR<Attribute> {
        use Attribute as A;
        let net = self.v.2;
        // (reads as an Option, name used when the data runs out)
        macro_rules! o {
            ($what:expr, $e:expr) => {{
                let mut f = || -> Option<Attribute> { Some($e) };
                nd($what, f())
            }};
        }
        match t {
            Tag::Boolean => o!("Boolean", A::Boolean(r.bit()?)),
            Tag::Byte => o!("Byte", A::Byte(r.u8()?)),
            Tag::AppliedDamage => o!("Applied Damage", A::AppliedDamage(AppliedDamage {
                id: r.u8()?, position: vec3f(r, net)?, damage_index: r.i32()?, total_damage: r.i32()?
            })),
            Tag::DamageState => o!("Damage State", A::DamageState(DamageState {
                tile_state: r.u8()?, damaged: r.bit()?, offender: ActorId(r.i32()?),
                ball_position: vec3f(r, net)?, direct_hit: r.bit()?, unknown1: r.bit()?
            })),
            Tag::CamSettings => o!("Cam Settings", A::CamSettings(Box::new(CamSettings {
                fov: r.f32()?, height: r.f32()?, angle: r.f32()?, distance: r.f32()?, stiffness: r.f32()?,
                swivel: r.f32()?, transition: if self.v >= V(868, 20, 0) { Some(r.f32()?) } else { None }
            }))),
            Tag::ClubColors => o!("Club Colors", A::ClubColors(ClubColors {
                blue_flag: r.bit()?, blue_color: r.u8()?, orange_flag: r.bit()?, orange_color: r.u8()?
            })),
            Tag::Demolish => o!("Demolish", A::Demolish(Box::new(Demolish {
                attacker_flag: r.bit()?, attacker: ActorId(r.i32()?), victim_flag: r.bit()?, victim: ActorId(r.i32()?),
                attack_velocity: vec3f(r, net)?, victim_velocity: vec3f(r, net)?
            }))),
            Tag::DemolishFx => o!("DemolishFx", A::DemolishFx(Box::new(DemolishFx {
                custom_demo_flag: r.bit()?, custom_demo_id: r.i32()?, attacker_flag: r.bit()?, attacker: ActorId(r.i32()?),
                victim_flag: r.bit()?, victim: ActorId(r.i32()?), attack_velocity: vec3f(r, net)?, victim_velocity: vec3f(r, net)?
            }))),
            Tag::DemolishExtended => o!("DemolishExtended", A::DemolishExtended(Box::new(DemolishExtended {
                attacker_pri: active(r)?, self_demo: active(r)?, self_demolish: r.bit()?, goal_explosion_owner: active(r)?,
                attacker: active(r)?, victim: active(r)?, attacker_velocity: vec3f(r, net)?, victim_velocity: vec3f(r, net)?
            }))),
            Tag::Enum => o!("Enum", A::Enum(r.bits(11)? as u16)),
            Tag::Explosion => o!("Explosion", A::Explosion(explosion(r, net)?)),
            Tag::ExtendedExplosion => o!("Extended Explosion", A::ExtendedExplosion(ExtendedExplosion {
                explosion: explosion(r, net)?, unknown1: r.bit()?, secondary_actor: ActorId(r.i32()?)
            })),
            Tag::FlaggedByte => o!("FlaggedByte", A::FlaggedByte(r.bit()?, r.u8()?)),
            Tag::ActiveActor => o!("Active Actor", A::ActiveActor(active(r)?)),
            Tag::Float => o!("Float", A::Float(r.f32()?)),
            Tag::GameMode => {
                let n = if self.v < V(868, 12, 0) { 2 } else { 8 };
                o!("Game Mode", A::GameMode(n, r.bits(n as u32)? as u8))
            }
            Tag::Int => o!("Int", A::Int(r.i32()?)),
            Tag::Int64 => o!("Int64", A::Int64(r.u64()? as i64)),
            Tag::Loadout => o!("Loadout", A::Loadout(Box::new(loadout(r)?))),
            Tag::TeamLoadout => o!("Team Loadout", A::TeamLoadout(Box::new(TeamLoadout { blue: loadout(r)?, orange: loadout(r)? }))),
            Tag::Location => o!("Location", A::Location(vec3f(r, net)?)),
            Tag::MusicStinger => o!("Music Stinger", A::MusicStinger(MusicStinger { flag: r.bit()?, cue: r.u32()?, trigger: r.u8()? })),
            Tag::Pickup => o!("Pickup", A::Pickup(Pickup {
                instigator: if r.bit()? { Some(ActorId(r.i32()?)) } else { None }, picked_up: r.bit()?
            })),
            Tag::PickupNew => o!("PickupNew", A::PickupNew(PickupNew {
                instigator: if r.bit()? { Some(ActorId(r.i32()?)) } else { None }, picked_up: r.u8()?
            })),
            Tag::PlayerHistoryKey => o!("PlayerHistoryKey", A::PlayerHistoryKey(r.bits(14)? as u16)),
            Tag::QWordString if self.is_223 => Ok(A::String(net_text(r)?)),
            Tag::QWordString => o!("QWord", A::QWord(r.u64()?)),
            Tag::Welded => o!("Welded", A::Welded(Welded {
                active: r.bit()?, actor: ActorId(r.i32()?), offset: vec3f(r, net)?, mass: r.f32()?, rotation: rotation(r)?
            })),
            Tag::RigidBody => o!("Rigid Body", {
                let sleeping = r.bit()?;
                let location = vec3f(r, net)?;
                let rotation = quat(r, net)?;
                let (mut l, mut a) = (None, None);
                if !sleeping {
                    l = Some(vec3f(r, net)?);
                    a = Some(vec3f(r, net)?);
                }
                A::RigidBody(RigidBody { sleeping, location, rotation, linear_velocity: l, angular_velocity: a })
            }),
            Tag::Title => o!("Title", A::Title(r.bit()?, r.bit()?, r.u32()?, r.u32()?, r.u32()?, r.u32()?, r.u32()?, r.bit()?)),
            Tag::TeamPaint => o!("Team Paint", A::TeamPaint(TeamPaint {
                team: r.u8()?, primary_color: r.u8()?, accent_color: r.u8()?, primary_finish: r.u32()?, accent_finish: r.u32()?
            })),
            Tag::NotImplemented => Err(AttributeError::Unimplemented),
            Tag::String => Ok(A::String(net_text(r)?)),
            Tag::UniqueId => Ok(A::UniqueId(Box::new(unique(r, net)?))),
            Tag::Reservation => {
                let w = "Reservation";
                let number = nd(w, r.bits(3))? as u32;
                let unique_id = unique(r, net)?;
                let name = if unique_id.system_id != 0 {
                    Some(net_text(r)?)
                } else if unique_id.remote_id != RemoteId::SplitScreen(0) {
                    let mut s = String::new();
                    while s.len() < 255 {
                        let c = nd(w, r.u8())?;
                        if c == 0 {
                            break;
                        }
                        s.push(c as char);
                    }
                    Some(s)
                } else {
                    None
                };
                let unknown1 = nd(w, r.bit())?;
                let unknown2 = nd(w, r.bit())?;
                let unknown3 = if self.v >= V(868, 12, 0) { Some(nd(w, r.bits(6))? as u8) } else { None };
                Ok(A::Reservation(Box::new(Reservation { number, unique_id, name, unknown1, unknown2, unknown3 })))
            }
            Tag::PartyLeader => {
                let s = nd("Party Leader", r.u8())?;
                Ok(A::PartyLeader(if s == 0 { None } else { Some(Box::new(remote(r, net, s)?)) }))
            }
            Tag::PrivateMatchSettings => {
                let w = "Private Match";
                Ok(A::PrivateMatch(Box::new(PrivateMatchSettings {
                    mutators: net_text(r)?, joinable_by: nd(w, r.u32())?, max_players: nd(w, r.u32())?,
                    game_name: net_text(r)?, password: net_text(r)?, flag: nd(w, r.bit())?,
                })))
            }
            Tag::LoadoutOnline => o!("Loadout Online", A::LoadoutOnline(self.online(r)?)),
            Tag::LoadoutsOnline => o!("Loadouts online", A::LoadoutsOnline(LoadoutsOnline {
                blue: self.online(r)?, orange: self.online(r)?, unknown1: r.bit()?, unknown2: r.bit()?
            })),
            Tag::StatEvent => o!("Stat Event", A::StatEvent(StatEvent { unknown1: r.bit()?, object_id: r.i32()? })),
            Tag::RotationTag => o!("Rotation", A::Rotation(rotation(r)?)),
            Tag::RepStatTitle => {
                let w = "RepStatTitle";
                Ok(A::RepStatTitle(RepStatTitle {
                    unknown: nd(w, r.bit())?, name: net_text(r)?, unknown2: nd(w, r.bit())?,
                    index: nd(w, r.u32())?, value: nd(w, r.u32())?,
                }))
            }
            Tag::PickupInfo => o!("Pickup Info", A::PickupInfo(PickupInfo {
                available_pickups: [active(r)?, active(r)?, active(r)?], items_are_preview: r.bit()?
            })),
            Tag::Impulse => o!("Impulse", A::Impulse(Impulse { compressed_rotation: r.i32()?, speed: r.f32()? })),
            Tag::ReplicatedBoost => o!("ReplicatedBoost", A::ReplicatedBoost(ReplicatedBoost {
                grant_count: r.u8()?, boost_amount: r.u8()?, unused1: r.u8()?, unused2: r.u8()?
            })),
            Tag::LogoData => o!("LogoData", A::LogoData(LogoData { logo_id: r.u32()?, swap_colors: r.bit()? })),
        }
    }

    fn frame(
        &self,
        r: &mut BitR,
        f: &mut Frame,
        actors: &mut HashMap<i32, i32>,
        dead: &mut std::collections::HashSet<i32>,
        tr: &mut Trace,
    ) -> Result<bool, FrameError> {
        use FrameError as E;
        let bad = |x: f32| x < 0.0 || (x > 0.0 && x < 1e-10);
        let at = r.pos;
        let time = r.f32().ok_or(E::NotEnoughDataFor("Time"))?;
        if bad(time) {
            return Err(E::TimeOutOfRange { time });
        }
        let delta = r.f32().ok_or(E::NotEnoughDataFor("Delta"))?;
        if bad(delta) {
            return Err(E::DeltaOutOfRange { delta });
        }
        if time == 0.0 && delta == 0.0 {
            return Ok(false);
        }
        f.time = time;
        f.delta = delta;
        tr.ev.push((Ev::FrameStart, at, r.pos));
        let mc = self.max_channels as u64;
        let cb = crate::model::width(mc).max(1) - 1;
        loop {
            let at = r.pos;
            if !r.bit().ok_or(E::NotEnoughDataFor("Actor data"))? {
                tr.ev.push((Ev::FrameEnd, at, r.pos));
                return Ok(true);
            }
            if r.left() < cb as usize + 2 {
                return Err(E::NotEnoughDataFor("Actor Id"));
            }
            let id = r.bounded(cb, mc).unwrap() as u32 as i32;
            if !r.bit().unwrap() {
                f.deleted_actors.push(ActorId(id));
                if actors.remove(&id).is_some() {
                    dead.insert(id);
                }
                tr.ev.push((Ev::Delete, at, r.pos));
                continue;
            }
            if r.bit().ok_or(E::NotEnoughDataFor("Is new actor"))? {
                let e = || E::NotEnoughDataFor("New Actor");
                let named = self.v >= V(868, 20, 0) || (self.v >= V(868, 14, 0) && !self.is_lan);
                let name_id = if named { Some(r.i32().ok_or_else(e)?) } else { None };
                r.bit().ok_or_else(e)?;
                let o = r.i32().ok_or_else(e)?;
                let sp = if o < 0 { None } else { self.model.spawn.get(o as usize) };
                let Some(sp) = sp else { return Err(E::ObjectIdOutOfRange { obj: ObjectId(o) }) };
                let location = if *sp == Spawn::None { None } else { Some(vec3i(r, self.v.2).ok_or_else(e)?) };
                let rotation = if *sp == Spawn::LocRot { Some(rotation(r).ok_or_else(e)?) } else { None };
                if self.model.info[o as usize].is_none() {
                    return Err(E::MissingCache { actor: ActorId(id), actor_object: ObjectId(o) });
                }
                actors.insert(id, o);
                dead.remove(&id);
                f.new_actors.push(NewActor {
                    actor_id: ActorId(id),
                    name_id,
                    object_id: ObjectId(o),
                    initial_trajectory: Trajectory { location, rotation },
                });
                tr.ev.push((Ev::Spawn, at, r.pos));
                continue;
            }
            if dead.contains(&id) {
                tr.update_after_delete += 1;
            }
            let o = *actors.get(&id).ok_or(E::MissingActor { actor: ActorId(id) })?;
            let info = self.model.info[o as usize].as_ref().unwrap();
            loop {
                let at = r.pos;
                if !r.bit().ok_or(E::NotEnoughDataFor("Is prop present"))? {
                    break;
                }
                let pb = info.id_bits();
                if r.left() < pb as usize + 1 || pb > 32 {
                    return Err(E::NotEnoughDataFor("Prop id"));
                }
                let sid = r.bounded(pb, info.max as u64).unwrap() as i32;
                let missing = E::MissingAttribute { actor: ActorId(id), actor_object: ObjectId(o), attribute_stream: StreamId(sid) };
                let Some(&(tag, ao)) = info.attrs.get(&sid) else { return Err(missing) };
                match self.attr(tag, r) {
                    Ok(attribute) => f.updated_actors.push(UpdatedAttribute {
                        actor_id: ActorId(id),
                        stream_id: StreamId(sid),
                        object_id: ObjectId(ao),
                        attribute,
                    }),
                    Err(AttributeError::Unimplemented) => return Err(missing),
                    Err(error) => {
                        return Err(E::AttributeError {
                            actor: ActorId(id),
                            actor_object: ObjectId(o),
                            attribute_stream: StreamId(sid),
                            error,
                        })
                    }
                }
                tr.ev.push((Ev::Attr(tag), at, r.pos));
            }
        }
    }

    pub fn frames(&self, data: &[u8], tr: &mut Trace) -> Result<Vec<Frame>, NetErr> {
        let Some(n) = self.frames else { return Ok(vec![]) };
        if n < 0 || n as usize > data.len() {
            return Err(NetErr::TooManyFrames(n));
        }
        let mut r = BitR::new(data);
        let mut out: Vec<Frame> = vec![];
        let mut actors = HashMap::new();
        let mut dead = Default::default();
        while r.left() > 0 && out.len() < n as usize {
            let mut f = Frame { time: 0.0, delta: 0.0, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
            let res = self.frame(&mut r, &mut f, &mut actors, &mut dead, tr);
            tr.end_bit = r.pos;
            match res {
                Ok(true) => out.push(f),
                Ok(false) => break,
                Err(e) => {
                    let prev = out
                        .iter()
                        .enumerate()
                        .rev()
                        .find(|(_, f)| !f.updated_actors.is_empty() || !f.new_actors.is_empty())
                        .map(|(i, f)| (i, f.clone()));
                    let ctx = NetCtx {
                        frames_done: out.len(),
                        last_time: out.last().map(|f| (f.time, f.delta)),
                        last_update: f.updated_actors.last().cloned(),
                        last_new: f.new_actors.last().cloned(),
                        prev,
                        actors,
                        own: match &e {
                            FrameError::MissingAttribute { actor_object, attribute_stream, .. } => {
                                self.model.info[actor_object.0 as usize].as_ref().and_then(|i| i.attrs.get(&attribute_stream.0)).map(|x| x.1)
                            }
                            _ => None,
                        },
                        same_id: match &e {
                            FrameError::MissingAttribute { attribute_stream, .. } => {
                                self.model.info.iter().flatten().filter_map(|i| i.attrs.get(&attribute_stream.0)).map(|x| x.1).collect()
                            }
                            _ => vec![],
                        },
                    };
                    return Err(NetErr::Frame(e, ctx));
                }
            }
        }
        Ok(out)
    }
}

// ---------------------------------------------------------------- whole file

#[derive(Debug, Clone)]
pub enum RefErr {
    Parse(ParseError),
    Net(NetErr),
}

pub struct RefOut<'a> {
    pub result: Result<Replay, RefErr>,
    /// the network outcome whatever the policy asked for, when the byte level decoded
    pub net: Option<Result<(), NetErr>>,
    pub hdr: Option<Hdr>,
    pub depth: usize,
    pub header_range: Option<(usize, usize)>,
    pub content_range: Option<(usize, usize)>,
    pub network: Option<(usize, &'a [u8])>,
    pub bytes_end: usize,
    pub trace: Trace,
}

fn policy<T>(chk: CrcCheck, r: PR<T>, data: &[u8], want: u32, name: &str) -> PR<T> {
    match chk {
        CrcCheck::Never => r,
        CrcCheck::Always => {
            let got = crc(data);
            if got != want {
                Err(ParseError::CrcMismatch(want, got))
            } else {
                r
            }
        }
        CrcCheck::OnError => match r {
            Ok(x) => Ok(x),
            Err(e) => {
                if crc(data) != want {
                    Err(ParseError::CorruptReplay(name.to_string(), Box::new(e)))
                } else {
                    Err(e)
                }
            }
        },
    }
}

pub fn reference<'a>(d: &'a [u8], chk: CrcCheck, np: NetworkParse) -> RefOut<'a> {
    let mut out = RefOut {
        result: Err(RefErr::Parse(ParseError::TextTooLarge(0))),
        net: None,
        hdr: None,
        depth: 0,
        header_range: None,
        content_range: None,
        network: None,
        bytes_end: 0,
        trace: Trace::default(),
    };
    let mut c = Cur { d, p: 0 };
    let r = whole(&mut c, chk, np, &mut out);
    out.bytes_end = c.p;
    out.result = r;
    out
}

fn whole<'a>(c: &mut Cur<'a>, chk: CrcCheck, np: NetworkParse, out: &mut RefOut<'a>) -> Result<Replay, RefErr> {
    let p = RefErr::Parse;
    let header_size = c.sec_i32("header size").map_err(p)?;
    let header_crc = c.sec_i32("header crc").map_err(p)? as u32;
    let view = |c: &Cur<'a>, n: i32, what: &'static str| -> PR<&'a [u8]> {
        if n < 0 || n as usize > c.left() {
            Err(ParseError::ParseError(what, sat(c.p), Box::new(ParseError::InsufficientData(n, sat(c.left())))))
        } else {
            Ok(&c.d[c.p..c.p + n as usize])
        }
    };
    let hd = view(c, header_size, "header data").map_err(p)?;
    out.header_range = Some((c.p, c.p + hd.len()));
    let h = header(c, &mut out.depth);
    let h = policy(chk, h, hd, header_crc, "header").map_err(p)?;
    out.hdr = Some(h.clone());
    let content_size = c.sec_i32("content size").map_err(p)?;
    let content_crc = c.sec_i32("content crc").map_err(p)? as u32;
    let cd = view(c, content_size, "content data").map_err(p)?;
    out.content_range = Some((c.p, c.p + cd.len()));
    let b = body(c);
    let b = policy(chk, b, cd, content_crc, "body").map_err(p)?;
    out.network = Some((b.network_at, b.network));
    let mut net = None;
    if np != NetworkParse::Never {
        let r = netcfg(&h, &b.objects, &b.net_cache).and_then(|cfg| cfg.frames(b.network, &mut out.trace));
        out.net = Some(r.as_ref().map(|_| ()).map_err(|e| e.clone()));
        match r {
            Ok(frames) => net = Some(NetworkFrames { frames }),
            Err(e) => {
                if np == NetworkParse::Always {
                    return Err(RefErr::Net(e));
                }
            }
        }
    }
    Ok(Replay {
        header_size,
        header_crc,
        major_version: h.major,
        minor_version: h.minor,
        net_version: h.net,
        game_type: h.game_type,
        properties: h.props,
        content_size,
        content_crc,
        network_frames: net,
        levels: b.levels,
        keyframes: b.keyframes,
        debug_info: b.debug_info,
        tick_marks: b.tick_marks,
        packages: b.packages,
        objects: b.objects,
        names: b.names,
        class_indices: b.class_indices,
        net_cache: b.net_cache,
    })
}
