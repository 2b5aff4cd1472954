fn main() {
    vreplay3::replays::prf::main()
}
