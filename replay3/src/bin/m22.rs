fn main() {
    vreplay3::replays::util::main()
}
