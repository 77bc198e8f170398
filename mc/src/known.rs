//! Known findings: committed, never written at run time.
//! `known: property=<id> case=<kind>:<hex payload> <what fails>`

pub struct Known { pub kind: String, pub payload: String, pub what: String }

pub fn load(prop: &str) -> Vec<Known> {
    let path = format!("{}/known-findings.txt", std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines().filter_map(|l| {
        let r = l.strip_prefix(&format!("known: property={} case=", prop))?;
        let (id, what) = r.split_once(' ')?;
        let (kind, payload) = id.split_once(':')?;
        Some(Known { kind: kind.into(), payload: payload.into(), what: what.into() })
    }).collect()
}
