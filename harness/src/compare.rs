//! Comparing what boxcars returned with what had to come out.
use crate::refdec::{NetErr, RefErr};
use boxcars::*;
use std::fmt::Debug;

/// equal, floats included bit for bit apart from NaN payloads (see `same_nans`)
pub fn strict<T: Debug + PartialEq>(a: &T, b: &T) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
/// equal; NaN counts as equal to NaN
pub fn loose<T: Debug + PartialEq>(a: &T, b: &T) -> bool {
    a == b || strict(a, b)
}
fn clip(s: String) -> String {
    if s.len() <= 420 {
        s
    } else {
        format!("{}...", s.chars().take(420).collect::<String>())
    }
}
fn around(a: &str, b: &str) -> (String, String) {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| -> String {
        let mut i = n.saturating_sub(80);
        while !s.is_char_boundary(i) {
            i -= 1
        }
        clip(s[i..].to_string())
    };
    (cut(a), cut(b))
}
pub fn differ<T: Debug>(what: &str, got: &T, want: &T) -> String {
    let (g, w) = around(&format!("{got:?}"), &format!("{want:?}"));
    format!("{what}: got ..{g}  expected ..{w}")
}

macro_rules! fields {
    ($eq:ident, $a:expr, $b:expr, [$($f:ident),*]) => {
        $( if !$eq(&$a.$f, &$b.$f) { return Some(differ(stringify!($f), &$a.$f, &$b.$f)); } )*
    };
}
/// the floats of a value that are stored as they are
fn raw_floats(a: &Attribute, out: &mut Vec<u32>) {
    match a {
        Attribute::Float(x) => out.push(x.to_bits()),
        Attribute::CamSettings(c) => {
            out.extend([c.fov, c.height, c.angle, c.distance, c.stiffness, c.swivel].map(f32::to_bits));
            out.extend(c.transition.map(f32::to_bits))
        }
        Attribute::Welded(w) => out.push(w.mass.to_bits()),
        Attribute::Impulse(i) => out.push(i.speed.to_bits()),
        _ => {}
    }
}
fn same_nans(a: &Attribute, b: &Attribute) -> bool {
    let (mut x, mut y) = (vec![], vec![]);
    raw_floats(a, &mut x);
    raw_floats(b, &mut y);
    x == y
}
fn prop_floats(p: &[(String, HeaderProp)], out: &mut Vec<u32>) {
    for (_, p) in p {
        match p {
            HeaderProp::Float(x) => out.push(x.to_bits()),
            HeaderProp::Array(a) => a.iter().for_each(|p| prop_floats(p, out)),
            HeaderProp::Struct { fields, .. } => prop_floats(fields, out),
            _ => {}
        }
    }
}
pub fn header_diff(a: &Replay, b: &Replay) -> Option<String> {
    fields!(strict, a, b, [header_size, header_crc, major_version, minor_version, net_version, game_type, properties]);
    let (mut x, mut y) = (vec![], vec![]);
    prop_floats(&a.properties, &mut x);
    prop_floats(&b.properties, &mut y);
    if x != y {
        return Some(differ("bits of the properties' floats", &x, &y));
    }
    None
}
pub fn body_diff(a: &Replay, b: &Replay) -> Option<String> {
    fields!(strict, a, b, [content_size, content_crc, levels, keyframes, debug_info, tick_marks, packages, objects, names, class_indices, net_cache]);
    for (i, (x, y)) in a.keyframes.iter().zip(&b.keyframes).enumerate() {
        if x.time.to_bits() != y.time.to_bits() {
            return Some(differ(&format!("bits of the time of keyframe {i}"), &x.time.to_bits(), &y.time.to_bits()));
        }
    }
    None
}
/// everything but network_frames
pub fn outer_diff(a: &Replay, b: &Replay) -> Option<String> {
    header_diff(a, b).or_else(|| body_diff(a, b))
}
pub fn frames_diff(a: &Option<NetworkFrames>, b: &Option<NetworkFrames>, exact: bool) -> Option<String> {
    let (x, y) = match (a, b) {
        (None, None) => return None,
        (Some(x), Some(y)) => (&x.frames, &y.frames),
        (a, b) => return Some(format!("network frames present: got {}, expected {}", a.is_some(), b.is_some())),
    };
    for (i, (f, g)) in x.iter().zip(y).enumerate() {
        if !exact && f == g {
            continue;
        }
        if let Some(d) = frame_diff(f, g) {
            return Some(format!("frame {i}: {d}"));
        }
    }
    if x.len() != y.len() {
        return Some(format!("number of frames: got {}, expected {}", x.len(), y.len()));
    }
    None
}
/// as `frame_diff`, but any NaN is as good as another: text and some binary formats know but one
pub fn frame_diff_one_nan(f: &Frame, g: &Frame) -> Option<String> {
    let mut f = f.clone();
    if f.time.is_nan() && g.time.is_nan() {
        f.time = g.time
    }
    if f.delta.is_nan() && g.delta.is_nan() {
        f.delta = g.delta
    }
    for (x, y) in f.updated_actors.iter_mut().zip(&g.updated_actors) {
        if strict(x, y) {
            x.attribute = y.attribute.clone()
        }
    }
    frame_diff(&f, g)
}
pub fn frame_diff(f: &Frame, g: &Frame) -> Option<String> {
    if f.time.to_bits() != g.time.to_bits() {
        return Some(differ("time", &f.time, &g.time));
    }
    if f.delta.to_bits() != g.delta.to_bits() {
        return Some(differ("delta", &f.delta, &g.delta));
    }
    fn list<T: Debug + PartialEq>(w: &str, a: &[T], b: &[T]) -> Option<String> {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if !strict(x, y) {
                return Some(differ(&format!("{w}[{i}]"), x, y));
            }
        }
        if a.len() != b.len() {
            return Some(format!("{w}: got {}, expected {}", a.len(), b.len()));
        }
        None
    }
    list("new_actors", &f.new_actors, &g.new_actors)
        .or_else(|| list("deleted_actors", &f.deleted_actors, &g.deleted_actors))
        .or_else(|| list("updated_actors", &f.updated_actors, &g.updated_actors))
        .or_else(|| {
            let (a, b) = f.updated_actors.iter().zip(&g.updated_actors).find(|(a, b)| !same_nans(&a.attribute, &b.attribute))?;
            Some(differ("bits of the floats of an update", &a, &b))
        })
}
pub fn replay_diff(a: &Replay, b: &Replay, exact: bool) -> Option<String> {
    outer_diff(a, b).or_else(|| frames_diff(&a.network_frames, &b.network_frames, exact))
}

pub fn net_error(e: &ParseError) -> Option<&NetworkError> {
    match e {
        ParseError::NetworkError(e) => Some(e),
        _ => None,
    }
}

/// does the reported error say what the reference found?
pub fn err_diff(got: &ParseError, want: &RefErr) -> Option<String> {
    let bad = |w: &dyn Debug| Some(format!("error: got {}  expected {}", clip(format!("{got:?}")), clip(format!("{w:?}"))));
    match (got, want) {
        (g, RefErr::Parse(w)) => {
            if strict(g, w) {
                None
            } else {
                bad(w)
            }
        }
        (ParseError::NetworkError(g), RefErr::Net(w)) => match (&**g, w) {
            (NetworkError::TooManyFrames(a), NetErr::TooManyFrames(b)) if a == b => None,
            (NetworkError::StreamTooLargeIndex(a, b), NetErr::StreamTooLarge(c, d)) if (a, b) == (c, d) => None,
            (NetworkError::FrameError(a, _), NetErr::Frame(b, _)) if strict(a, b) => None,
            (NetworkError::FrameError(a, _), NetErr::Frame(b, _)) => {
                Some(format!("frame error: got {}  expected {}", clip(format!("{a:?}")), clip(format!("{b:?}"))))
            }
            (g, w) => Some(format!("network error: got {}  expected {}", clip(format!("{g}")), clip(format!("{w:?}")))),
        },
        (_, w) => bad(w),
    }
}

pub fn opts(d: &[u8], c: CrcCheck, n: NetworkParse) -> Result<Replay, ParseError> {
    ParserBuilder::new(d).with_crc_check(c).with_network_parse(n).parse()
}
pub const CRCS: [CrcCheck; 3] = [CrcCheck::Always, CrcCheck::OnError, CrcCheck::Never];
pub const NETS: [NetworkParse; 3] = [NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never];
