//! The replays that come with the repository.
use std::sync::OnceLock;

pub fn dir() -> String {
    let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
    format!("{repo}/assets/replays")
}
fn list(sub: &str) -> Vec<(String, Vec<u8>)> {
    let Ok(rd) = std::fs::read_dir(format!("{}/{sub}", dir())) else { return vec![] };
    let mut v: Vec<_> = rd
        .filter_map(|e| e.ok())
        .filter(|e| e.file_name().to_string_lossy().ends_with(".replay"))
        .map(|e| (e.file_name().to_string_lossy().into_owned(), e.path()))
        .collect();
    v.sort();
    v.into_iter().map(|(n, p)| (n, std::fs::read(p).unwrap())).collect()
}
pub fn good() -> &'static [(String, Vec<u8>)] {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| list("good"))
}
pub fn bad() -> &'static [(String, Vec<u8>)] {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| list("bad"))
}

/// development aid: differential over the whole corpus
pub fn dev() {
    use crate::compare::*;
    use crate::refdec::reference;
    use boxcars::*;
    for (n, d) in good().iter().chain(bad()) {
        let t = std::time::Instant::now();
        let r = reference(d, CrcCheck::OnError, NetworkParse::Always);
        let tr = t.elapsed();
        let t = std::time::Instant::now();
        let b = opts(d, CrcCheck::OnError, NetworkParse::Always);
        let tb = t.elapsed();
        let diff = match (&b, &r.result) {
            (Ok(a), Ok(b)) => replay_diff(a, b, true),
            (Err(a), Err(b)) => err_diff(a, b),
            (a, b) => Some(format!("ok {} vs {}", a.is_ok(), b.is_ok())),
        };
        println!(
            "{n}: {} len {} v {:?} depth {} ev {} upd-after-del {} {:?} {:?} {}",
            if b.is_ok() { "ok" } else { "err" }, d.len(), r.hdr.as_ref().map(|h| (h.major, h.minor, h.net)), r.depth, r.trace.ev.len(), r.trace.update_after_delete, tr, tb, diff.unwrap_or_default()
        );
    }
}
