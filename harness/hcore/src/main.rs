mod codec;
mod crypto;
mod model;
mod names;
mod packet;
mod spec;
fn main() {
	nsx::main(&[codec::TABLE, names::TABLE, packet::TABLE, crypto::TABLE])
}
