include!("../pg/gen.rs");
fn main() {
    generate(&["alpha"]);
}
