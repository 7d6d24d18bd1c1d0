//! What a replay has to look like as JSON, written down field by field from the documentation,
//! and a small JSON reader of our own to compare it with.
use boxcars::*;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// expected value
pub enum E {
    Null,
    Bool(bool),
    Int(i64),
    F32(f32),
    Str(String),
    Arr(Vec<E>),
    /// fields, any order
    Obj(Vec<(&'static str, E)>),
    /// entries of a property list: order kept, keys may repeat
    Map(Vec<(String, E)>),
    Variant(&'static str, Box<E>),
}

// ------------------------------------------------------------------ reading

pub struct Reader<'a> {
    d: &'a [u8],
    p: usize,
}
pub fn parse(s: &str) -> Result<J, String> {
    let mut r = Reader { d: s.as_bytes(), p: 0 };
    let v = r.value(0)?;
    r.ws();
    if r.p != r.d.len() {
        return Err(format!("trailing text at {}", r.p));
    }
    Ok(v)
}
impl Reader<'_> {
    fn ws(&mut self) {
        while self.p < self.d.len() && matches!(self.d[self.p], b' ' | b'\n' | b'\r' | b'\t') {
            self.p += 1
        }
    }
    fn peek(&self) -> u8 {
        self.d.get(self.p).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.p < self.d.len() && self.d[self.p] == c {
            self.p += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.p))
        }
    }
    fn word(&mut self, w: &str, j: J) -> Result<J, String> {
        if self.d[self.p..].starts_with(w.as_bytes()) {
            self.p += w.len();
            Ok(j)
        } else {
            Err(format!("bad literal at {}", self.p))
        }
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 2000 {
            return Err("too deep".into());
        }
        self.ws();
        match self.peek() {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.p += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.p += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    if self.peek() == b',' {
                        self.p += 1
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(v));
                    }
                }
            }
            b'{' => {
                self.p += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.p += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    if self.peek() == b',' {
                        self.p += 1
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(v));
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let a = self.p;
        let digits = |s: &mut Self| {
            let b = s.p;
            while s.peek().is_ascii_digit() {
                s.p += 1
            }
            s.p - b
        };
        if self.peek() == b'-' {
            self.p += 1
        }
        let lead = self.peek();
        let n = digits(self);
        if n == 0 || (n > 1 && lead == b'0') {
            return Err(format!("bad number at {a}"));
        }
        if self.peek() == b'.' {
            self.p += 1;
            if digits(self) == 0 {
                return Err(format!("bad number at {a}"));
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.p += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.p += 1
            }
            if digits(self) == 0 {
                return Err(format!("bad number at {a}"));
            }
        }
        Ok(J::Num(std::str::from_utf8(&self.d[a..self.p]).unwrap().to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let s = self.d.get(self.p..self.p + 4).ok_or("short escape")?;
        let s = std::str::from_utf8(s).map_err(|e| e.to_string())?;
        self.p += 4;
        u32::from_str_radix(s, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.d.get(self.p).ok_or("unterminated string")?;
            self.p += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                0..=0x1f => return Err("control character in string".into()),
                b'\\' => {
                    let e = *self.d.get(self.p).ok_or("unterminated string")?;
                    self.p += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return Err("bad surrogate".into());
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            }
                            char::from_u32(u).ok_or("bad escape")?
                        }
                        _ => return Err("bad escape".into()),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
}

// ------------------------------------------------------------------ comparing

pub struct Tally {
    pub values: u64,
    pub floats: u64,
    pub null_floats: u64,
    pub big_ints: u64,
    pub variants: std::collections::BTreeMap<&'static str, u64>,
}
impl Default for Tally {
    fn default() -> Self {
        Tally { values: 0, floats: 0, null_floats: 0, big_ints: 0, variants: Default::default() }
    }
}
fn clip(j: &J) -> String {
    let s = format!("{j:?}");
    s.chars().take(200).collect()
}
pub fn diff(j: &J, e: &E, t: &mut Tally) -> Option<String> {
    t.values += 1;
    let bad = |w: String| Some(format!("{w}, found {}", clip(j)));
    let at = |k: &str, r: Option<String>| r.map(|x| format!("{k}.{x}"));
    match (j, e) {
        (J::Null, E::Null) => None,
        (J::Bool(a), E::Bool(b)) if a == b => None,
        (J::Num(s), E::Int(i)) => {
            if s.parse::<i64>().ok() == Some(*i) {
                None
            } else {
                bad(format!("should be {i}"))
            }
        }
        (J::Null, E::F32(f)) if !f.is_finite() => {
            t.null_floats += 1;
            None
        }
        (J::Num(s), E::F32(f)) if f.is_finite() => {
            t.floats += 1;
            // decimal text of the value, or of the value widened: both read back as the same f32
            if s.parse::<f32>().map(|x| x.to_bits()).ok() == Some(f.to_bits()) {
                None
            } else {
                bad(format!("should be {f:?}"))
            }
        }
        (J::Str(a), E::Str(b)) => {
            if b.len() > 15 && b.bytes().all(|c| c.is_ascii_digit()) {
                t.big_ints += 1
            }
            if a == b {
                None
            } else {
                bad(format!("should be {:?}", b.chars().take(200).collect::<String>()))
            }
        }
        (J::Arr(a), E::Arr(b)) => {
            if a.len() != b.len() {
                return Some(format!("length {} should be {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| at(&format!("[{i}]"), diff(x, y, t)))
        }
        (J::Obj(a), E::Obj(b)) => {
            if a.len() != b.len() {
                return bad(format!("should have the {} fields {:?}", b.len(), b.iter().map(|x| x.0).collect::<Vec<_>>()));
            }
            for (k, v) in b {
                let mut hits = a.iter().filter(|x| x.0 == *k);
                let (Some(x), None) = (hits.next(), hits.next()) else { return bad(format!("should have one field {k}")) };
                if let Some(d) = diff(&x.1, v, t) {
                    return Some(format!("{k}.{d}"));
                }
            }
            None
        }
        (J::Obj(a), E::Map(b)) => {
            if a.len() != b.len() {
                return Some(format!("{} entries, should be {}", a.len(), b.len()));
            }
            for ((ka, va), (kb, vb)) in a.iter().zip(b) {
                if ka != kb {
                    return Some(format!("key {ka:?} should be {kb:?}"));
                }
                if let Some(d) = diff(va, vb, t) {
                    return Some(format!("{kb}.{d}"));
                }
            }
            None
        }
        (J::Obj(a), E::Variant(n, v)) => {
            *t.variants.entry(n).or_insert(0) += 1;
            if a.len() != 1 || a[0].0 != *n {
                return bad(format!("should be {{{n:?}: ..}}"));
            }
            at(n, diff(&a[0].1, v, t))
        }
        (j, e) => {
            let k = match e {
                E::Null => "null".to_string(),
                E::Bool(b) => b.to_string(),
                E::Int(i) => i.to_string(),
                E::F32(f) => format!("{f:?}"),
                E::Str(s) => format!("the string {:?}", s.chars().take(100).collect::<String>()),
                E::Arr(a) => format!("an array of {}", a.len()),
                E::Obj(_) | E::Map(_) => "an object".into(),
                E::Variant(n, _) => format!("{{{n:?}: ..}}"),
            };
            Some(format!("should be {k}, found {}", clip(j)))
        }
    }
}

// ------------------------------------------------------------------ expectations

macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { E::Obj(vec![$(($k, $v)),*]) } }

fn i(x: impl Into<i64>) -> E {
    E::Int(x.into())
}
fn b(x: bool) -> E {
    E::Bool(x)
}
fn f(x: f32) -> E {
    E::F32(x)
}
fn s(x: &str) -> E {
    E::Str(x.to_string())
}
fn d(x: impl std::fmt::Display) -> E {
    E::Str(x.to_string())
}
fn opt<T>(x: &Option<T>, g: impl Fn(&T) -> E) -> E {
    x.as_ref().map(g).unwrap_or(E::Null)
}
fn arr<T>(x: &[T], g: impl Fn(&T) -> E) -> E {
    E::Arr(x.iter().map(g).collect())
}
fn strs(x: &[String]) -> E {
    arr(x, |x| s(x))
}
fn var(n: &'static str, e: E) -> E {
    E::Variant(n, Box::new(e))
}
fn aid(x: &ActorId) -> E {
    i(x.0)
}
fn v3(x: &Vector3f) -> E {
    obj! {"x": f(x.x), "y": f(x.y), "z": f(x.z)}
}
fn v3i(x: &Vector3i) -> E {
    obj! {"x": i(x.x), "y": i(x.y), "z": i(x.z)}
}
fn rot(x: &Rotation) -> E {
    obj! {"yaw": opt(&x.yaw, |v| i(*v)), "pitch": opt(&x.pitch, |v| i(*v)), "roll": opt(&x.roll, |v| i(*v))}
}
fn active(x: &ActiveActor) -> E {
    obj! {"active": b(x.active), "actor": aid(&x.actor)}
}
fn explosion(x: &Explosion) -> E {
    obj! {"flag": b(x.flag), "actor": aid(&x.actor), "location": v3(&x.location)}
}
fn loadout(x: &Loadout) -> E {
    let o = |v: &Option<u32>| opt(v, |v| i(*v));
    obj! {
        "version": i(x.version), "body": i(x.body), "decal": i(x.decal), "wheels": i(x.wheels),
        "rocket_trail": i(x.rocket_trail), "antenna": i(x.antenna), "topper": i(x.topper), "unknown1": i(x.unknown1),
        "unknown2": o(&x.unknown2), "engine_audio": o(&x.engine_audio), "trail": o(&x.trail),
        "goal_explosion": o(&x.goal_explosion), "banner": o(&x.banner), "product_id": o(&x.product_id),
    }
}
fn products(x: &[Vec<Product>]) -> E {
    arr(x, |v| arr(v, product))
}
fn product(x: &Product) -> E {
    use ProductValue::*;
    let v = match &x.value {
        NoColor => s("NoColor"),
        Absent => s("Absent"),
        OldColor(v) => var("OldColor", i(*v)),
        NewColor(v) => var("NewColor", i(*v)),
        OldPaint(v) => var("OldPaint", i(*v)),
        NewPaint(v) => var("NewPaint", i(*v)),
        Title(v) => var("Title", s(v)),
        SpecialEdition(v) => var("SpecialEdition", i(*v)),
        OldTeamEdition(v) => var("OldTeamEdition", i(*v)),
        NewTeamEdition(v) => var("NewTeamEdition", i(*v)),
    };
    obj! {"unknown": b(x.unknown), "object_ind": i(x.object_ind.0), "value": v}
}
fn unique(x: &UniqueId) -> E {
    let bytes = |v: &Vec<u8>| arr(v, |v| i(*v));
    let r = match &x.remote_id {
        RemoteId::PlayStation(p) => var("PlayStation", obj! {"online_id": d(p.online_id), "name": s(&p.name), "unknown1": bytes(&p.unknown1)}),
        RemoteId::PsyNet(p) => var("PsyNet", obj! {"online_id": d(p.online_id), "unknown1": bytes(&p.unknown1)}),
        RemoteId::SplitScreen(v) => var("SplitScreen", i(*v)),
        RemoteId::Steam(v) => var("Steam", d(v)),
        RemoteId::Switch(p) => var("Switch", obj! {"online_id": d(p.online_id), "unknown1": bytes(&p.unknown1)}),
        RemoteId::Xbox(v) => var("Xbox", d(v)),
        RemoteId::QQ(v) => var("QQ", d(v)),
        RemoteId::Epic(v) => var("Epic", s(v)),
    };
    obj! {"system_id": i(x.system_id), "remote_id": r, "local_id": i(x.local_id)}
}
pub fn attribute(a: &Attribute) -> E {
    use Attribute as A;
    match a {
        A::Boolean(x) => var("Boolean", b(*x)),
        A::Byte(x) => var("Byte", i(*x)),
        A::AppliedDamage(x) => var(
            "AppliedDamage",
            obj! {"id": i(x.id), "position": v3(&x.position), "damage_index": i(x.damage_index), "total_damage": i(x.total_damage)},
        ),
        A::DamageState(x) => var(
            "DamageState",
            obj! {"tile_state": i(x.tile_state), "damaged": b(x.damaged), "offender": aid(&x.offender), "ball_position": v3(&x.ball_position),
            "direct_hit": b(x.direct_hit), "unknown1": b(x.unknown1)},
        ),
        A::CamSettings(x) => var(
            "CamSettings",
            obj! {"fov": f(x.fov), "height": f(x.height), "angle": f(x.angle), "distance": f(x.distance), "stiffness": f(x.stiffness),
            "swivel": f(x.swivel), "transition": opt(&x.transition, |v| f(*v))},
        ),
        A::ClubColors(x) => var(
            "ClubColors",
            obj! {"blue_flag": b(x.blue_flag), "blue_color": i(x.blue_color), "orange_flag": b(x.orange_flag), "orange_color": i(x.orange_color)},
        ),
        A::Demolish(x) => var(
            "Demolish",
            obj! {"attacker_flag": b(x.attacker_flag), "attacker": aid(&x.attacker), "victim_flag": b(x.victim_flag), "victim": aid(&x.victim),
            "attack_velocity": v3(&x.attack_velocity), "victim_velocity": v3(&x.victim_velocity)},
        ),
        A::DemolishExtended(x) => var(
            "DemolishExtended",
            obj! {"attacker_pri": active(&x.attacker_pri), "self_demo": active(&x.self_demo), "self_demolish": b(x.self_demolish),
            "goal_explosion_owner": active(&x.goal_explosion_owner), "attacker": active(&x.attacker), "victim": active(&x.victim),
            "attacker_velocity": v3(&x.attacker_velocity), "victim_velocity": v3(&x.victim_velocity)},
        ),
        A::DemolishFx(x) => var(
            "DemolishFx",
            obj! {"custom_demo_flag": b(x.custom_demo_flag), "custom_demo_id": i(x.custom_demo_id), "attacker_flag": b(x.attacker_flag),
            "attacker": aid(&x.attacker), "victim_flag": b(x.victim_flag), "victim": aid(&x.victim),
            "attack_velocity": v3(&x.attack_velocity), "victim_velocity": v3(&x.victim_velocity)},
        ),
        A::Enum(x) => var("Enum", i(*x)),
        A::Explosion(x) => var("Explosion", explosion(x)),
        A::ExtendedExplosion(x) => var(
            "ExtendedExplosion",
            obj! {"explosion": explosion(&x.explosion), "unknown1": b(x.unknown1), "secondary_actor": aid(&x.secondary_actor)},
        ),
        A::FlaggedByte(x, y) => var("FlaggedByte", E::Arr(vec![b(*x), i(*y)])),
        A::ActiveActor(x) => var("ActiveActor", active(x)),
        A::Float(x) => var("Float", f(*x)),
        A::GameMode(x, y) => var("GameMode", E::Arr(vec![i(*x), i(*y)])),
        A::Int(x) => var("Int", i(*x)),
        A::Int64(x) => var("Int64", d(x)),
        A::Loadout(x) => var("Loadout", loadout(x)),
        A::TeamLoadout(x) => var("TeamLoadout", obj! {"blue": loadout(&x.blue), "orange": loadout(&x.orange)}),
        A::Location(x) => var("Location", v3(x)),
        A::MusicStinger(x) => var("MusicStinger", obj! {"flag": b(x.flag), "cue": i(x.cue), "trigger": i(x.trigger)}),
        A::PlayerHistoryKey(x) => var("PlayerHistoryKey", i(*x)),
        A::Pickup(x) => var("Pickup", obj! {"instigator": opt(&x.instigator, aid), "picked_up": b(x.picked_up)}),
        A::PickupNew(x) => var("PickupNew", obj! {"instigator": opt(&x.instigator, aid), "picked_up": i(x.picked_up)}),
        A::QWord(x) => var("QWord", d(x)),
        A::Welded(x) => var(
            "Welded",
            obj! {"active": b(x.active), "actor": aid(&x.actor), "offset": v3(&x.offset), "mass": f(x.mass), "rotation": rot(&x.rotation)},
        ),
        A::Title(p, q, r, t, u, v, w, x) => var("Title", E::Arr(vec![b(*p), b(*q), i(*r), i(*t), i(*u), i(*v), i(*w), b(*x)])),
        A::TeamPaint(x) => var(
            "TeamPaint",
            obj! {"team": i(x.team), "primary_color": i(x.primary_color), "accent_color": i(x.accent_color),
            "primary_finish": i(x.primary_finish), "accent_finish": i(x.accent_finish)},
        ),
        A::RigidBody(x) => var(
            "RigidBody",
            obj! {"sleeping": b(x.sleeping), "location": v3(&x.location),
            "rotation": obj! {"x": f(x.rotation.x), "y": f(x.rotation.y), "z": f(x.rotation.z), "w": f(x.rotation.w)},
            "linear_velocity": opt(&x.linear_velocity, v3), "angular_velocity": opt(&x.angular_velocity, v3)},
        ),
        A::String(x) => var("String", s(x)),
        A::UniqueId(x) => var("UniqueId", unique(x)),
        A::Reservation(x) => var(
            "Reservation",
            obj! {"number": i(x.number), "unique_id": unique(&x.unique_id), "name": opt(&x.name, |v| s(v)), "unknown1": b(x.unknown1),
            "unknown2": b(x.unknown2), "unknown3": opt(&x.unknown3, |v| i(*v))},
        ),
        A::PartyLeader(x) => var("PartyLeader", opt(x, |v| unique(v))),
        A::PrivateMatch(x) => var(
            "PrivateMatch",
            obj! {"mutators": s(&x.mutators), "joinable_by": i(x.joinable_by), "max_players": i(x.max_players), "game_name": s(&x.game_name),
            "password": s(&x.password), "flag": b(x.flag)},
        ),
        A::LoadoutOnline(x) => var("LoadoutOnline", products(x)),
        A::LoadoutsOnline(x) => var(
            "LoadoutsOnline",
            obj! {"blue": products(&x.blue), "orange": products(&x.orange), "unknown1": b(x.unknown1), "unknown2": b(x.unknown2)},
        ),
        A::StatEvent(x) => var("StatEvent", obj! {"unknown1": b(x.unknown1), "object_id": i(x.object_id)}),
        A::Rotation(x) => var("Rotation", rot(x)),
        A::RepStatTitle(x) => var(
            "RepStatTitle",
            obj! {"unknown": b(x.unknown), "name": s(&x.name), "unknown2": b(x.unknown2), "index": i(x.index), "value": i(x.value)},
        ),
        A::PickupInfo(x) => var(
            "PickupInfo",
            obj! {"available_pickups": arr(&x.available_pickups, active), "items_are_preview": b(x.items_are_preview)},
        ),
        A::Impulse(x) => var("Impulse", obj! {"compressed_rotation": i(x.compressed_rotation), "speed": f(x.speed)}),
        A::ReplicatedBoost(x) => var(
            "ReplicatedBoost",
            obj! {"grant_count": i(x.grant_count), "boost_amount": i(x.boost_amount), "unused1": i(x.unused1), "unused2": i(x.unused2)},
        ),
        A::LogoData(x) => var("LogoData", obj! {"logo_id": i(x.logo_id), "swap_colors": b(x.swap_colors)}),
    }
}
pub fn frame(x: &Frame) -> E {
    obj! {
        "time": f(x.time), "delta": f(x.delta),
        "new_actors": arr(&x.new_actors, |n| obj! {
            "actor_id": aid(&n.actor_id), "name_id": opt(&n.name_id, |v| i(*v)), "object_id": i(n.object_id.0),
            "initial_trajectory": obj! {"location": opt(&n.initial_trajectory.location, v3i), "rotation": opt(&n.initial_trajectory.rotation, rot)},
        }),
        "deleted_actors": arr(&x.deleted_actors, aid),
        "updated_actors": arr(&x.updated_actors, |u| obj! {
            "actor_id": aid(&u.actor_id), "stream_id": i(u.stream_id.0), "object_id": i(u.object_id.0), "attribute": attribute(&u.attribute),
        }),
    }
}
fn dict(x: &[(String, HeaderProp)]) -> E {
    E::Map(x.iter().map(|(k, v)| (k.clone(), prop(v))).collect())
}
fn prop(p: &HeaderProp) -> E {
    match p {
        HeaderProp::Array(a) => arr(a, |x| dict(x)),
        HeaderProp::Struct { name, fields } => obj! {"name": s(name), "fields": dict(fields)},
        HeaderProp::Bool(x) => b(*x),
        HeaderProp::Byte { kind, value } => obj! {"kind": s(kind), "value": opt(value, |v| s(v))},
        HeaderProp::Float(x) => f(*x),
        HeaderProp::Int(x) => i(*x),
        HeaderProp::QWord(x) => d(x),
        HeaderProp::Name(x) | HeaderProp::Str(x) => s(x),
    }
}
pub fn replay(r: &Replay) -> E {
    obj! {
        "header_size": i(r.header_size), "header_crc": i(r.header_crc), "major_version": i(r.major_version),
        "minor_version": i(r.minor_version), "net_version": opt(&r.net_version, |v| i(*v)), "game_type": s(&r.game_type),
        "properties": dict(&r.properties), "content_size": i(r.content_size), "content_crc": i(r.content_crc),
        "network_frames": opt(&r.network_frames, |n| obj! {"frames": arr(&n.frames, frame)}),
        "levels": strs(&r.levels),
        "keyframes": arr(&r.keyframes, |k| obj! {"time": f(k.time), "frame": i(k.frame), "position": i(k.position)}),
        "debug_info": arr(&r.debug_info, |k| obj! {"frame": i(k.frame), "user": s(&k.user), "text": s(&k.text)}),
        "tick_marks": arr(&r.tick_marks, |k| obj! {"description": s(&k.description), "frame": i(k.frame)}),
        "packages": strs(&r.packages), "objects": strs(&r.objects), "names": strs(&r.names),
        "class_indices": arr(&r.class_indices, |k| obj! {"class": s(&k.class), "index": i(k.index)}),
        "net_cache": arr(&r.net_cache, |k| obj! {"object_ind": i(k.object_ind), "parent_id": i(k.parent_id), "cache_id": i(k.cache_id),
            "properties": arr(&k.properties, |p| obj! {"object_ind": i(p.object_ind), "stream_id": i(p.stream_id)})}),
    }
}
