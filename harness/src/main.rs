fn main() {
    mc::driver::main()
}
