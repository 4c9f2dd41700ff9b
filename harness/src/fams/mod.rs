use crate::Family;
pub mod parse;
mod big;
mod choose;
mod edit;
mod far;
pub mod generate;
mod render;
mod round;
mod session;
pub mod text;
pub mod validate;

macro_rules! fam {
    ($n:literal, $m:path, $r:path) => {
        Family { name: $n, make: $m, run: $r }
    };
}

pub static ALL: &[Family] = &[
    fam!("parse", parse::make, parse::run),
    fam!("parse_big", parse::make_big, parse::run),
    fam!("parse_far", parse::make_far, parse::run),
    fam!("cyclic_far", parse::make_cyclic_far, parse::run),
    fam!("parse_long", parse::make_long, parse::run_long),
    fam!("cyclic_long", parse::make_cyclic_long, parse::run_long),
    fam!("cyclic", parse::make_cyclic, parse::run),
    fam!("session", session::make, session::run),
    fam!("text_plain", text::make_plain, text::run),
    fam!("text_abnf", text::make_abnf, text::run),
    fam!("text_ext", text::make_ext, text::run),
    fam!("round", round::make, round::run),
    fam!("gen10", generate::make10, generate::run),
    fam!("gen11", generate::make11, generate::run),
    fam!("gen12", generate::make12, generate::run),
    fam!("gen12_long", generate::make12_long, generate::run_long12),
    fam!("repro", choose::make13, choose::run13),
    fam!("repro_big", choose::make13_big, choose::run13),
    fam!("choose14", choose::make14, choose::run_choose),
    fam!("choose15", choose::make15, choose::run_choose),
    fam!("dist16", choose::make16, choose::run16),
    fam!("render", render::make, render::run),
    fam!("edit", edit::make, edit::run),
    fam!("plus", edit::make_plus, edit::run_plus),
    fam!("validate", validate::make, validate::run),
    fam!("validate_far", far::validate, far::run_validate),
    fam!("text_plain_far", far::text_plain, far::run_text),
    fam!("text_abnf_far", far::text_abnf, far::run_text),
    fam!("text_ext_far", far::text_ext, far::run_text),
    fam!("round_far", far::round, far::run_round),
    fam!("render_far", far::render, far::run_render),
    fam!("gen10_far", far::gen10, far::run_gen),
    fam!("gen11_far", far::gen11, far::run_gen),
    fam!("gen12_far", far::gen12, far::run_gen),
    fam!("validate_big", big::validate, validate::run),
    fam!("text_plain_big", big::text_plain, text::run),
    fam!("text_abnf_big", big::text_abnf, text::run),
    fam!("text_ext_big", big::text_ext, text::run),
    fam!("round_big", big::round, round::run),
    fam!("gen10_big", big::gen10, generate::run),
    fam!("gen11_big", big::gen11, generate::run),
    fam!("gen12_big", big::gen12, generate::run),
    fam!("choose14_big", big::choose14, choose::run_choose),
    fam!("choose15_big", big::choose15, choose::run_choose),
    fam!("dist16_big", big::dist16, choose::run16),
    fam!("render_big", big::render, render::run),
    fam!("edit_big", big::edit, edit::run),
    fam!("session_big", big::session, session::run),
];
