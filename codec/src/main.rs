mod alloc;
mod asm;
mod boxes;
mod checks;
mod gen;
mod mk;
mod refdec;
mod w;
fn main() {
    vkit::main(vec![checks::c10::prop(), checks::c11::prop(), checks::c12::prop(), checks::c13::prop(), checks::c14::prop(), checks::c15::prop(), checks::c16::prop(), checks::c17::prop(), checks::c18::prop(), checks::c19::prop(), checks::c20::prop(), checks::c21::prop(), checks::c22::prop(), checks::c23::prop(), checks::c24::prop(), checks::c25::prop(), checks::c26::prop()])
}
