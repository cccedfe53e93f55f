// collects the harness entry points into a table for the replay binary
use std::fmt::Write;
fn main() {
    let mut t = String::from("pub static ENTRIES: &[(&str, extern \"C-unwind\" fn())] = &[\n");
    let mut files: Vec<_> = std::fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "rs")).collect();
    files.sort();
    for p in files {
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "lib" || m == "vs" { continue; }
        let s = std::fs::read_to_string(&p).unwrap();
        for l in s.lines() {
            if let Some(r) = l.trim_start().strip_prefix("pub extern \"C-unwind\" fn ") {
                let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                writeln!(t, "    (\"{}\", harness::{}::{}),", n, m, n).unwrap();
            }
        }
    }
    t.push_str("];\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("entries.rs"), t).unwrap();
    println!("cargo:rerun-if-changed=src");
}
