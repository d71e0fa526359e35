fn main() {
    pbt::main(gokocheck::props())
}
