//! Harnesses for the server: conversations with the real `Server::run`.
#![allow(clippy::all)]
pub mod sym;
pub mod common;
pub mod h_srv;
#[path = "/repo/crates/server/src/server.rs"]
pub mod server;

macro_rules! harnesses { ($($name:ident => $path:path),* $(,)?) => {
    $( #[cfg(not(feature = "native"))] #[no_mangle] pub extern "C" fn $name() { $path() } )*
    pub const HARNESSES: &[(&str, fn())] = &[ $( (stringify!($name), $path as fn()) ),* ];
} }
harnesses! {
    serve => h_srv::serve,
}
