//! Image operations
mod compose;
mod conv;
mod effects;
mod geometry;
mod pure;
mod resample;
mod threads;
mod tone;

fn main() {
    d10_verif::engine::main_with(|id, _| {
        Some(match id {
            "C06" => geometry::c06(),
            "C07" => resample::c07(),
            "C08" => resample::c08(),
            "C09" => compose::c09(),
            "C10" => conv::c10(),
            "C11" => conv::c11(),
            "C12" => tone::c12(),
            "C13" => effects::c13(),
            "C14" => effects::c14(),
            "C15" => effects::c15(),
            "C25" => pure::c25(),
            "C26" => threads::c26(),
            _ => return None,
        })
    });
}
