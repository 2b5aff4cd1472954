fn main() {
    vreplay3::replays::proto::main()
}
