mod props;
fn main() {
    vx::main_with(&props::all());
}
