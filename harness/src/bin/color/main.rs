//! Colour properties
mod adjust;
mod props;
mod text;

fn main() {
    d10_verif::engine::main_with(|id, _| {
        Some(match id {
            "C01" => props::c01(),
            "C02" => props::c02(),
            "C04" => text::c04(),
            "C03" => adjust::c03(),
            _ => return None,
        })
    });
}
