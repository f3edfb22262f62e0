//! The simulated world around pt: clients, and stand-ins for the components a
//! user plugs in (sampler, camera, container, shapes, materials).  Compiled
//! with the same instrumentation as pt, because pt's generics are
//! instantiated here.
#![allow(bare_trait_objects)]
extern crate pt;
extern crate simrt;

pub mod apis;
pub mod parts;
pub mod scenes;
pub mod work;
