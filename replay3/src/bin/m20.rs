fn main() {
    vreplay3::replays::rl::main()
}
