fn main() {
    // the driver links librustc_driver.so dynamically: find it at run time in the toolchain it was built with
    let rustc = std::env::var("RUSTC").unwrap();
    let out = std::process::Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap();
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}/lib", sysroot.trim());
}
