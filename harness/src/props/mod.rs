pub mod density;
pub mod combos;
pub mod core;
pub mod expfam;
pub mod compiled;
pub mod tagless;
pub mod bayes;
pub mod symbolic;
pub mod userfam;
use crate::runner::Prop;
pub fn all() -> Vec<Prop> {
    let mut v = density::props();
    v.extend(expfam::props());
    v.extend(combos::props());
    v.extend(core::props());
    v.extend(symbolic::props());
    v.extend(compiled::props());
    v.extend(tagless::props());
    v.extend(bayes::props());
    for p in &mut v {
        p.facets.extend(userfam::facets(p.id));
    }
    v.sort_by_key(|p| p.id);
    for p in &mut v {
        // ten to twenty seconds on eight cores
        let k = match p.id {
            "C19" => 2,
            "C21" => 3,
            "C25" => 5,
            "C02" => 6,
            "C01" | "C09" | "C13" | "C17" => 10,
            "C03" | "C10" | "C26" => 25,
            "C20" => 30,
            "C07" | "C11" | "C12" | "C15" | "C16" | "C23" | "C24" => 18,
            _ => 12,
        };
        for f in &mut p.facets {
            if !f.enumerated {
                f.quick *= k;
                f.thorough = f.thorough.max(4 * f.quick);
            }
        }
    }
    v
}
