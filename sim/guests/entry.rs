
// ---- appended by the simulator's build: the only way in ----
#[no_mangle]
pub extern "C" fn scutiger_sim_main() {
    // What the Rust runtime does around main: a panic ends the process with
    // status 101, a normal return with 0; std::process::exit flushes stdout.
    let code = match ::std::panic::catch_unwind(|| {
        main();
    }) {
        Ok(()) => 0,
        Err(_) => 101,
    };
    ::std::process::exit(code)
}
