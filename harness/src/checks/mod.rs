pub mod acc;
pub mod cfg;
#[cfg(verif_hooks)]
pub mod hooks;
pub mod life;
pub mod live;
pub mod meta;
pub mod radau;
pub mod scale;
pub mod step;

use crate::fw::Spec;

pub fn all() -> Vec<Spec> {
    let mut v = acc::specs();
    v.extend(step::specs());
    v.extend(life::specs());
    v.extend(cfg::specs());
    #[cfg(verif_hooks)]
    v.extend(hooks::specs());
    v.extend(meta::specs());
    v.extend(radau::specs());
    v.extend(live::specs());
    v.sort_by_key(|s| s.id);
    v
}
