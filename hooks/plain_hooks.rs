// constructor and view of the iterator state, for its step contract
pub fn iter_state(code: &super::IrisCodeArray, current: u64, index: usize) -> super::Bits<'_> { super::Bits { code, current, index } }
pub fn iter_view(b: &super::Bits<'_>) -> (super::IrisCodeArray, u64, usize) { (*b.code, b.current, b.index) }
