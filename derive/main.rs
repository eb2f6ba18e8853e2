#![allow(dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut, non_upper_case_globals, unused_variables, confusable_idents, uncommon_codepoints, mixed_script_confusables)]
mod rt;
mod types;
use vh::engine::*;

fn case(cx: &mut Ctx) -> R {
    let i = cx.src.n(types::TYPES.len());
    let e = &types::TYPES[i];
    (e.run)(cx, e)
}
static C19: Check = Check {
    id: "C19",
    rule: "each case picks one generated type definition and one value of it; non-trivial when the definition carries an sval attribute or the value makes more than four stream calls",
    quick: 60_000,
    thorough: 1_500_000,
    run: case,
    assumptions: &[
        "type definitions follow the documented attribute grammar; combinations whose meaning the documentation leaves open are not generated (an implicit variant index after an explicit one, flatten after an explicit field index, labels or indexes on variants that the container declares unlabeled, unindexed or dynamic)",
        "what a field's own type streams is taken from that type (C15 and, for generated types, this check), and what flattening splices from sval_flatten (C18)",
    ],
};
fn main() {
    static ALL: &[&Check] = &[&C19];
    vh::main_with(ALL)
}
