include!("gen.rs");
fn main() {
    generate(&["alpha", "input", "round_constants", "rounds", "transcript", "utils"]);
}
