fn main() {
    busy_beaver::validator::vharness::main();
}
