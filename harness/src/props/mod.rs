use crate::engine::Prop;

mod codec;
mod crowd;
mod delivery;
mod direct;
mod endpoints;
pub mod hostile;
mod liveness;
mod rate;
mod traffic;

/// All properties; tests for the same property may come from several modules.
pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = Vec::new();
    for m in [codec::props(), crowd::props(), delivery::props(), direct::props(), endpoints::props(), hostile::props(), liveness::props(), rate::props(), traffic::props()] {
        for p in m {
            match v.iter_mut().find(|q| q.id == p.id) {
                Some(q) => {
                    q.tests.extend(p.tests);
                    if !p.rule.is_empty() { q.rule = Box::leak(format!("{}; {}", q.rule, p.rule).into_boxed_str()); }
                }
                None => v.push(p),
            }
        }
    }
    v.sort_by_key(|p| p.id);
    v
}
