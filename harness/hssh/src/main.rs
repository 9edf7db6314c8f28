#[path = "../../hcore/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../hcore/src/spec.rs"]
#[allow(dead_code)]
mod spec;
mod client;
mod auth;
mod conn;
mod kex;
mod long;
mod more;
mod quiet;
mod world;
pub const SERVER_ID: &[u8] = b"SSH-2.0-nora";
fn main() { nsx::main(&[kex::TABLE, auth::TABLE, conn::TABLE, more::TABLE, long::TABLE, quiet::TABLE]) }
