use crate::run::Prop;

#[cfg(feature = "de")]
mod decode;
#[cfg(feature = "de")]
mod misc;
#[cfg(feature = "de")]
mod round;
#[cfg(feature = "race")]
pub mod race;
mod wire;

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![];
    v.extend(wire::PROPS);
    #[cfg(feature = "de")]
    v.extend(round::PROPS);
    #[cfg(feature = "de")]
    v.extend(decode::PROPS);
    #[cfg(feature = "de")]
    v.extend(misc::PROPS);
    #[cfg(feature = "race")]
    v.extend(race::PROPS);
    v
}
