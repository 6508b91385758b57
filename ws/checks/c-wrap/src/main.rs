//! Transactions signed outside Substrate: by a wallet of the XRP Ledger (C46), under a doughnut (C47).
mod dn;
mod xr;
fn main() {
	vh::main(vec![xr::check(), dn::check()]);
}
