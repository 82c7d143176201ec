//! The shipped program as a module: the text of /repo/src/main.rs without inner attributes and inner comments.
fn main() {
    println!("cargo:rerun-if-changed=/repo/src/main.rs");
    let s = std::fs::read_to_string("/repo/src/main.rs").unwrap();
    let t: Vec<&str> = s.lines().filter(|l| !l.trim_start().starts_with("#![") && !l.trim_start().starts_with("//!")).collect();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("program.rs"), t.join("\n")).unwrap();
}
