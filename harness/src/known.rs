//! The list of known findings (genuine defects recorded rather than repaired).

use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Finding {
    pub property: String,
    pub id: String,
    pub replay: PathBuf,
    pub what: String,
}

static LISTED: OnceLock<Vec<Finding>> = OnceLock::new();

/// Lines `known: property=<id> id=<signature> replay=<file> <what fails>`; everything else in the
/// file is for the reader.
pub fn load(dir: &Path) -> &'static [Finding] {
    LISTED.get_or_init(|| {
        let mut v = vec![];
        let text = std::fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
        for l in text.lines() {
            let Some(rest) = l.strip_prefix("known:") else { continue };
            let mut f = Finding { property: String::new(), id: String::new(), replay: PathBuf::new(), what: String::new() };
            let mut what = vec![];
            for w in rest.split_whitespace() {
                if let (Some(x), true) = (w.strip_prefix("property="), f.property.is_empty()) {
                    f.property = x.into();
                } else if let (Some(x), true) = (w.strip_prefix("id="), f.id.is_empty()) {
                    f.id = x.into();
                } else if let (Some(x), true) = (w.strip_prefix("replay="), f.replay.as_os_str().is_empty()) {
                    f.replay = dir.join(x);
                } else {
                    what.push(w);
                }
            }
            f.what = what.join(" ");
            v.push(f);
        }
        v
    })
}

pub fn listed(id: &str) -> bool {
    LISTED.get().map(|v| v.iter().any(|f| f.id == id)).unwrap_or(false)
}
