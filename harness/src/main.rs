fn main() {
    vh::main_with(vh::checks::ALL)
}
