//! The parts of the harness's checks that hold models.
pub mod core {
    use crate::engine::Src;
    use crate::val::Cfg;
    pub fn cfg(s: &mut Src) -> Cfg {
        let big = s.chance(1, 15);
        Cfg { nodes: if big { 60 } else { 16 }, depth: if big { 9 } else { 5 }, ..Cfg::default() }
    }
}
#[path = "../../../harness/src/checks/flat.rs"]
pub mod flat;
#[path = "../../../harness/src/checks/nested.rs"]
pub mod nested;
