use crate::engine::Prop;
use std::sync::OnceLock;

mod errors;
#[cfg(feature = "extra")]
mod features;
mod faults;
mod lexer;
mod localise;
pub mod pattern;
mod provider;
mod registry;
mod script;
#[cfg(feature = "sync")]
mod sync;

pub fn all() -> &'static [&'static Prop] {
    static ALL: OnceLock<Vec<&'static Prop>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<&'static Prop> = vec![];
        for list in [lexer::PROPS, registry::PROPS, pattern::PROPS, localise::PROPS, provider::PROPS, script::PROPS, errors::PROPS, faults::PROPS] {
            v.extend(list.iter());
        }
        #[cfg(feature = "sync")]
        v.extend(sync::PROPS.iter());
        #[cfg(feature = "extra")]
        v.extend(features::PROPS.iter());
        v.sort_by_key(|p| p.id);
        v
    })
}
