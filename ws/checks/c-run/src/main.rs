//! How the runtime ties its pallets together: what it disables stays disabled on every route (C52), messages from Ethereum reach
//! their pallet only (C53), tokens have their addresses in the EVM (C54).
mod addresses;
mod bridge;
mod routes;
fn main() {
	vh::main(vec![routes::check(), bridge::check(), addresses::check()])
}
