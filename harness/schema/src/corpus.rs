//! Every schema file of the repository.
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct File {
    pub path: PathBuf,
    pub name: String,
    pub text: String,
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let n = e.file_name();
        if n == "target" || n == ".git" {
            continue;
        }
        match e.file_type() {
            Ok(t) if t.is_dir() => walk(&p, out),
            Ok(t) if t.is_file() && p.extension().is_some_and(|x| x == "aldrin") => out.push(p),
            _ => {}
        }
    }
}

pub fn files() -> &'static [File] {
    static F: OnceLock<Vec<File>> = OnceLock::new();
    F.get_or_init(|| {
        let mut p = vec![];
        walk(Path::new("/repo"), &mut p);
        p.sort();
        p.into_iter()
            .filter_map(|path| {
                let text = fs::read_to_string(&path).ok()?;
                let name = path.file_stem()?.to_str()?.to_owned();
                Some(File { path, name, text })
            })
            .collect()
    })
}

/// The schema and everything it could import.
pub fn with_siblings(i: usize) -> Vec<(String, String)> {
    let f = &files()[i];
    let mut v = vec![(f.name.clone(), f.text.clone())];
    for g in files() {
        if g.path.parent() == f.path.parent() && g.path != f.path {
            v.push((g.name.clone(), g.text.clone()));
        }
    }
    v
}
