//! The precompiles that have no token standard behind them: DEX (C48), NFT, SFT, peg and futurepass registrar (C49), futurepass (C50).
mod dex;
mod fpass;
mod make;
mod pay;
mod w;
fn main() {
	vh::main(vec![dex::check(), make::check(), fpass::check(), pay::check()])
}
