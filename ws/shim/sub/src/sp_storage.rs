use std::collections::BTreeMap;
#[derive(Default, Debug, Clone, PartialEq)]
pub struct Storage {
	pub top: BTreeMap<Vec<u8>, Vec<u8>>,
	pub children_default: BTreeMap<Vec<u8>, ()>,
}
pub mod well_known_keys {
	pub const CODE: &[u8] = b":code";
	pub const HEAP_PAGES: &[u8] = b":heappages";
	pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index";
}
