//! The specification tables and the object-model rules, kept apart from boxcars' own source:
//! which names are known, who inherits from whom, what an object starts with, and which
//! attribute a stream id means for an object.
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tag {
    Boolean, Byte, AppliedDamage, DamageState, CamSettings, ClubColors, Demolish, DemolishFx,
    DemolishExtended, Enum, Explosion, ExtendedExplosion, FlaggedByte, ActiveActor, Float,
    GameMode, Int, Int64, Loadout, TeamLoadout, Location, MusicStinger, Pickup, PickupNew,
    PlayerHistoryKey, QWordString, Welded, RigidBody, Title, TeamPaint, NotImplemented, String,
    UniqueId, Reservation, PartyLeader, PrivateMatchSettings, LoadoutOnline, LoadoutsOnline,
    StatEvent, RotationTag, RepStatTitle, PickupInfo, Impulse, ReplicatedBoost, LogoData,
}
pub const ALL_TAGS: [Tag; 44] = {
    use Tag::*;
    [
        Boolean, Byte, AppliedDamage, DamageState, CamSettings, ClubColors, Demolish, DemolishFx,
        DemolishExtended, Enum, Explosion, ExtendedExplosion, FlaggedByte, ActiveActor, Float,
        GameMode, Int, Int64, Loadout, TeamLoadout, Location, MusicStinger, Pickup, PickupNew,
        PlayerHistoryKey, QWordString, Welded, RigidBody, Title, TeamPaint, String,
        UniqueId, Reservation, PartyLeader, PrivateMatchSettings, LoadoutOnline, LoadoutsOnline,
        StatEvent, RotationTag, RepStatTitle, PickupInfo, Impulse, ReplicatedBoost, LogoData,
    ]
};
fn tag_of(s: &str) -> Tag {
    *ALL_TAGS
        .iter()
        .find(|t| format!("{:?}", t) == s)
        .unwrap_or_else(|| panic!("tag {s}"))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Spawn {
    None,
    Loc,
    LocRot,
}

pub struct Tables {
    pub attr: BTreeMap<&'static str, Tag>,
    pub parent: BTreeMap<&'static str, &'static str>,
    pub spawn: Vec<(&'static str, Spawn)>,
    pub attr_list: Vec<(&'static str, Tag)>,
    pub class_list: Vec<(&'static str, &'static str)>,
    pub by_tag: HashMap<Tag, Vec<&'static str>>,
}

pub fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let pairs = |s: &'static str| -> Vec<(&'static str, &'static str)> {
            s.lines().filter_map(|l| l.split_once('\t')).collect()
        };
        let attr_list: Vec<_> = pairs(include_str!("../data/attributes.tsv"))
            .into_iter()
            .map(|(a, b)| (a, tag_of(b)))
            .collect();
        let class_list = pairs(include_str!("../data/parents.tsv"));
        let spawn = pairs(include_str!("../data/spawns.tsv"))
            .into_iter()
            .map(|(a, b)| {
                (a, match b {
                    "None" => Spawn::None,
                    "Location" => Spawn::Loc,
                    "LocationAndRotation" => Spawn::LocRot,
                    x => panic!("spawn {x}"),
                })
            })
            .collect();
        let mut by_tag: HashMap<Tag, Vec<&'static str>> = HashMap::new();
        for (n, t) in &attr_list {
            by_tag.entry(*t).or_default().push(n)
        }
        Tables {
            attr: attr_list.iter().copied().collect(),
            parent: class_list.iter().copied().collect(),
            spawn,
            attr_list,
            class_list,
            by_tag,
        }
    })
}

/// Level-placed actors carry the stadium and an instance number in their name; those do not
/// matter for what the object is.
pub const LEVEL_KINDS: [&str; 6] = [
    "CrowdActor_TA",
    "CrowdManager_TA",
    "VehiclePickup_Boost_TA",
    "InMapScoreboard_TA",
    "BreakOutActor_Platform_TA",
    "PlayerStart_Platform_TA",
];
pub fn canonical(name: &str) -> String {
    const P: &str = "TheWorld:PersistentLevel.";
    if name.len() <= P.len() + "CrowdActor_TA".len() {
        return name.to_string();
    }
    let rest = if let Some(r) = name.strip_prefix(P) {
        r
    } else {
        match name.find('.') {
            Some(i) if name[i + 1..].starts_with(P) => &name[i + 1 + P.len()..],
            _ => return name.to_string(),
        }
    };
    for k in LEVEL_KINDS {
        if rest.starts_with(k) {
            return format!("{P}{k}");
        }
    }
    name.to_string()
}

pub fn parent_of(name: &str) -> Option<&'static str> {
    tables().parent.get(canonical(name).as_str()).copied()
}

#[derive(Debug, Clone)]
pub struct ObjInfo {
    /// stream id -> (kind, object id of the attribute)
    pub attrs: BTreeMap<i32, (Tag, i32)>,
    /// one above the largest stream id
    pub max: i64,
}
impl ObjInfo {
    pub fn id_bits(&self) -> u32 {
        width(self.max as u64).max(1) - 1
    }
}

pub fn width(x: u64) -> u32 {
    let mut n = 0;
    while n < 64 && (x >> n) != 0 {
        n += 1
    }
    n
}

pub struct ObjModel {
    pub first: HashMap<String, usize>,
    pub spawn: Vec<Spawn>,
    pub info: Vec<Option<ObjInfo>>,
}

pub struct CacheIn {
    pub object_ind: i32,
    pub props: Vec<(i32, i32)>, // (attribute object, stream id)
}

/// Err((stream id, object index)) when a cache entry names an object that does not exist.
pub fn resolve(objects: &[String], caches: &[CacheIn]) -> Result<ObjModel, (i32, i32)> {
    let t = tables();
    let mut first = HashMap::new();
    for (i, n) in objects.iter().enumerate() {
        first.entry(n.clone()).or_insert(i);
    }
    let mut own: HashMap<i32, Vec<(i32, (Tag, i32))>> = HashMap::new();
    for c in caches {
        for &(obj, stream) in &c.props {
            let name = if obj < 0 { None } else { objects.get(obj as usize) };
            let Some(name) = name else { return Err((stream, obj)) };
            let tag = t.attr.get(name.as_str()).copied().unwrap_or(Tag::NotImplemented);
            own.entry(c.object_ind).or_default().push((stream, (tag, obj)));
        }
    }
    let mut spawn = vec![];
    let mut info = vec![];
    for (i, n) in objects.iter().enumerate() {
        if first[n] != i {
            spawn.push(Spawn::None);
            info.push(None);
            continue;
        }
        // self, then every ancestor; the root of the hierarchy has no parent and carries nothing
        let mut chain: Vec<&str> = vec![];
        let mut cur: &str = n;
        while let Some(p) = parent_of(cur) {
            chain.push(cur);
            cur = p;
        }
        let own_spawn = t.spawn.iter().find(|(k, _)| k == n).map(|x| x.1);
        let s = own_spawn.or_else(|| {
            chain
                .iter()
                .filter(|c| first.contains_key(**c))
                .find_map(|c| t.spawn.iter().find(|(k, _)| k == c).map(|x| x.1))
        });
        spawn.push(s.unwrap_or(Spawn::None));
        if chain.is_empty() {
            info.push(None);
            continue;
        }
        let mut attrs = BTreeMap::new();
        for c in chain.iter().rev() {
            if let Some(ix) = first.get(*c) {
                for (s, v) in own.get(&(*ix as i32)).into_iter().flatten() {
                    attrs.insert(*s, *v);
                }
            }
        }
        let max = match attrs.keys().next_back() {
            Some(&m) => (m as i64 + 1).min(i32::MAX as i64),
            None => 3,
        };
        info.push(Some(ObjInfo { attrs, max }));
    }
    Ok(ObjModel { first, spawn, info })
}
