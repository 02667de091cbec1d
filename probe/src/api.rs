//! Types whose interface is examined (C22).
pub type P2 = zkhash::poseidon2::poseidon2::Poseidon2<crate::goldilocks>;
pub type P2_PARAMS = zkhash::poseidon2::poseidon2_params::Poseidon2Params<crate::goldilocks>;
pub type POSEIDON = zkhash::poseidon::poseidon::Poseidon<crate::goldilocks>;
pub type POSEIDON_PARAMS = zkhash::poseidon::poseidon_params::PoseidonParams<crate::goldilocks>;
pub type GMIMC = zkhash::gmimc::gmimc::Gmimc<crate::goldilocks>;
pub type GMIMC_PARAMS = zkhash::gmimc::gmimc_params::GmimcParams<crate::goldilocks>;
pub type NEPTUNE = zkhash::neptune::neptune::Neptune<crate::goldilocks>;
pub type NEPTUNE_PARAMS = zkhash::neptune::neptune_params::NeptuneParams<crate::goldilocks>;
/// Positive controls: what the rules must find.
pub struct Leaky {
    pub table: Vec<u64>,
    cell: std::rc::Rc<std::cell::RefCell<u64>>,
}
impl Leaky {
    pub fn set(&mut self, v: u64) {
        self.table.push(v);
    }
    pub fn table_mut(&mut self) -> &mut Vec<u64> {
        &mut self.table
    }
    pub fn cell(&self) -> &std::cell::RefCell<u64> {
        &self.cell
    }
    pub fn bump(&self) {
        self.put(1)
    }
    fn put(&self, v: u64) {
        *self.cell.borrow_mut() = v;
    }
}
impl AsMut<Vec<u64>> for Leaky {
    fn as_mut(&mut self) -> &mut Vec<u64> {
        &mut self.table
    }
}
pub type CONTROL = Leaky;
