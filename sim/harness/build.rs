// FXSIM_EXCLUDE names the shapes of the catalogue that the tree under test does not compile (see check.sh).
fn main() {
    println!("cargo:rerun-if-env-changed=FXSIM_EXCLUDE");
    let x = std::env::var("FXSIM_EXCLUDE").unwrap_or_default();
    for n in x.split_whitespace() {
        println!("cargo:rustc-cfg=fx_no_{n}");
    }
    println!("cargo:rustc-env=FXSIM_EXCLUDED={}", x.split_whitespace().collect::<Vec<_>>().join(" "));
}
