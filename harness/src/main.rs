// One feature per family of checks, so that a check builds only what it needs.
#![allow(clippy::all)]
#![cfg_attr(not(all(feature = "bytes", feature = "chars", feature = "slices", feature = "dyns", feature = "futs", feature = "layouts", feature = "closures")), allow(dead_code, unused_macros, unused_imports, unused_mut))]
mod alloc;
#[macro_use]
mod engine;
mod json;
#[cfg(feature = "bytes")]
mod p_bytes;
#[cfg(feature = "chars")]
mod p_char;
#[cfg(feature = "closures")]
mod p_closure;
#[cfg(feature = "dyns")]
mod p_dyn;
#[cfg(feature = "futs")]
mod p_fut;
#[cfg(feature = "layouts")]
mod p_layout;
#[cfg(feature = "slices")]
mod p_slice;
mod vals;
fn main() {
    let mut props = vec![];
    #[cfg(feature = "bytes")]
    props.extend(p_bytes::props());
    #[cfg(feature = "chars")]
    props.extend(p_char::props());
    #[cfg(feature = "slices")]
    props.extend(p_slice::props());
    #[cfg(feature = "dyns")]
    props.extend(p_dyn::props());
    #[cfg(feature = "futs")]
    props.extend(p_fut::props());
    #[cfg(feature = "layouts")]
    props.extend(p_layout::props());
    #[cfg(feature = "closures")]
    props.extend(p_closure::props());
    engine::main(props);
}
