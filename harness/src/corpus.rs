//! The .jxl files of the repository.
use std::path::{Path, PathBuf};

pub struct File {
    pub name: String,
    pub data: Vec<u8>,
}
pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into()))
}
fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "jxl") {
            out.push(p);
        }
    }
}
pub fn load() -> Vec<File> {
    let root = repo();
    let mut v = vec![];
    walk(&root.join("jxl/resources/test"), &mut v);
    walk(&root.join("jxl/tests/testdata"), &mut v);
    v.into_iter()
        .map(|p| File { name: p.strip_prefix(&root).unwrap().to_string_lossy().into_owned(), data: std::fs::read(&p).unwrap() })
        .collect()
}
