mod checks;
mod gen;
mod model;
mod observe;
mod serve;
fn main() {
    vkit::main(checks::props())
}
