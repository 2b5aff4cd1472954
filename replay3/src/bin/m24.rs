fn main() {
    vreplay3::replays::auth::main()
}
