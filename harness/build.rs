fn main() {
    // The interposed libc entry points must also win when looked up with dlsym (std does that for getrandom).
    for s in ["clock_gettime", "getrandom", "syscall"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={s}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
