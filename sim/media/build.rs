//! Wraps the binaries of the repository as modules, so that their `main` can run inside the simulator.
use std::{env, fs, path::Path};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for (name, module_of, src) in [
        ("sanity_main", "sanity", "/repo/sanity-check/src/main.rs"),
        ("xtask_main", "xtask_bin", "/repo/xtask/src/main.rs"),
        ("server_main", "server", "/repo/web-spectrogram/src/main.rs"),
    ] {
        println!("cargo:rerun-if-changed={src}");
        let text: String = fs::read_to_string(src)
            .unwrap()
            .lines()
            .filter(|l| !l.trim_start().starts_with("#![") && !l.trim_start().starts_with("//!"))
            .map(|l| {
                // Modules in files of their own stay where they are; the crate root is this module.
                let t = l.trim();
                let module = t.strip_suffix(';').and_then(|t| t.strip_prefix("pub ").unwrap_or(t).strip_prefix("mod "));
                let path = match module {
                    Some(m) => {
                        let dir = Path::new(src).parent().unwrap();
                        let file = dir.join(format!("{m}.rs"));
                        let file = if file.exists() { file } else { dir.join(m).join("mod.rs") };
                        println!("cargo:rerun-if-changed={}", file.display());
                        format!("#[path = {file:?}] ")
                    }
                    None => String::new(),
                };
                format!("{path}{l}\n").replace("$crate::", "$crate\u{0}::").replace("crate::", &format!("crate::program::{module_of}::inner::")).replace("$crate\u{0}::", "$crate::")
            })
            .collect();
        fs::write(Path::new(&out).join(format!("{name}.rs")), text).unwrap();
    }
}
