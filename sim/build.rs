fn main() {
    // export the interposed libc symbols, so that std's weak (dlsym) lookups find them too
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
