mod util;
mod s01;
mod r1cs;
mod circ;
mod subj;
mod s05;
mod flow;
mod s10;
mod s12;
fn main() {
    mc::main(&[("S01", s01::run), ("S02", circ::s02), ("S03", circ::s03), ("S04", circ::s04), ("S05", s05::run), ("S06", flow::s06), ("S07", flow::s07), ("S08", flow::s08), ("S09", flow::s09), ("S10", s10::run), ("S11", flow::s11), ("S12", s12::s12), ("S13", s12::s13), ("S14", s12::s14), ("S15", s12::s15)]);
}
