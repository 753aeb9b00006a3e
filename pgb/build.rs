include!("../pg/gen.rs");
fn main() {
    generate_without(&["poseidon_build"], &["v1", "v2"]);
}
