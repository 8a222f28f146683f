//! J01: project discovery and the modules of a project.
use crate::sem::*;
use cairo_m_compiler_semantic::db::{crate_from_project, module_name_for_file};
use cairo_m_project::{discover_project, discover_workspace, find_project_manifest};
use std::path::PathBuf;
fn manifest(name: &str, entry: &str) -> String { format!("name = \"{name}\"\nversion = \"0.1.0\"\nentry_point = \"{entry}\"\n") }
fn path(p: &str) -> PathBuf { PathBuf::from(format!("{}/{p}", fs_root())) }
fn file(p: &str, t: &str) { fs_file(&format!("{}/{p}", fs_root()), t.as_bytes()) }
fn dir(p: &str) { fs_dir(&format!("{}/{p}", fs_root())) }
fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> { v.sort(); v }
/// the closest manifest at or above the start wins, whatever is nested where; the start may be relative and need not exist
pub fn h_proj_find() {
    let levels = ["", "p/", "p/q/", "p/q/src/", "p/q/src/a/"]; let mut has = [false; 5];
    dir("p/q/src/a"); file("p/q/src/a/x.cm", "const A = 1;"); file("p/q/src/main.cm", "const B = 1;"); file("p/y.cm", "const C = 1;");
    for (i, l) in levels.iter().enumerate() { match choose(&format!("m{i}"), 3) { 0 => (), 1 => { has[i] = true; file(&format!("{l}cairom.toml"), &manifest(&format!("n{i}"), "main.cm")); } _ => file(&format!("{l}Cairom.toml"), "name = \"no\"") } }
    let starts = [("p", 1), ("p/q", 2), ("p/q/src", 3), ("p/q/src/main.cm", 3), ("p/q/src/a", 4), ("p/q/src/a/x.cm", 4), ("p/q/src/a/missing", 4), ("p/y.cm", 1), ("p/q/cairom.toml", 2)]; let (s, at) = starts[choose("start", starts.len())];
    let want = (0..5).rev().find(|i| has[*i] & (*i <= at));
    // the place from which the path is given
    let start = match choose("from", 4) { 0 => path(s), 1 => PathBuf::from(s), 2 => { let cut = s.rfind('/').unwrap_or(0); std::env::set_current_dir(path(&s[..cut])).unwrap(); PathBuf::from(s[cut..].trim_start_matches('/')) } _ => { if !s.ends_with('c') && !s.ends_with("/a") { return } std::env::set_current_dir(path(s)).unwrap(); PathBuf::from(".") } };
    note(&format!("{start:?} {want:?}"));
    let found = find_project_manifest(&start).ok().flatten(); note(&format!("{found:?}"));
    let same = |p: PathBuf, q: PathBuf| p.canonicalize().unwrap_or(p) == q.canonicalize().unwrap_or(q);
    check(found.is_some() == want.is_some() && want.is_none_or(|i| same(found.unwrap(), path(&format!("{}cairom.toml", levels[i])))), "the manifest of a path is the closest one at or above it");
    let p = discover_project(&start); check(p.is_ok(), "discovery succeeds"); let p = p.unwrap().unwrap();
    match want {
        Some(i) => { check((p.name == format!("n{i}")) & (p.config.name == p.name), "the project is the one of the closest manifest"); check(same(p.source_directory(), path(&format!("{}src", levels[i]))) & (p.root_directory.file_name() == Some("main.cm".as_ref())), "its root file is the entry point in its source folder"); reach("project"); }
        None => { if start.is_file() & !s.contains("src") { check(p.source_files().unwrap().into_iter().map(|f| f.canonicalize().unwrap()).collect::<Vec<_>>() == [start.canonicalize().unwrap()], "a file without a manifest is a project of its own"); } else { let _ = p.source_files(); } reach("standalone"); }
    }
}
/// the modules of a project are the .cm files of its source folder, each under the name its path spells
pub fn h_proj_files() {
    let spots = ["main", "x", "a/x", "a/b", "a/b/c", "b.x/y", "x", "tests/x"];
    dir("p/src"); file("p/cairom.toml", &manifest("p", "main.cm")); fs_reverse_order(bool("order"));
    let mut want: Vec<(String, String, String)> = vec![];
    for (i, s) in spots.iter().enumerate() {
        let kind = if i == 0 { 0 } else { choose(&format!("k{i}"), if (i < 5) | thorough() { 3 } else { 2 }) };
        let t = format!("const K{i}: felt = {i};\n"); let at = if i < 6 { format!("p/src/{s}") } else { format!("p/{s}") };
        match kind { 0 => { file(&format!("{at}.cm"), &t); if i < 6 { want.push((s.replace('/', "::"), t, s.to_string())); } } 1 => (), _ => { file(&format!("{at}.txt"), &t); dir(&format!("{at}2.cm")); file(&format!("{at}.cm.bak"), "x"); file(&format!("{at}.CM"), "x"); } }
    }
    let p = discover_project(&path("p")).unwrap().unwrap(); let files = p.source_files(); check(files.is_ok(), "the source files are listed"); let files = files.unwrap();
    note(&format!("{files:?}"));
    check(sorted(files.clone()) == sorted(want.iter().map(|w| path(&format!("p/src/{}.cm", w.2))).collect()), "the source files of a project are the .cm files below its source folder");
    check(files.iter().all(|f| p.contains_path(f)) & !p.contains_path(&path("p/other.cm")), "a project contains its source files");
    for w in &want { check(p.module_name_from_path(&path(&format!("p/src/{}.cm", w.2))) == Ok(w.0.clone()), "a module is named after its path"); }
    check(p.module_name_from_path(&path("p/tests/x.cm")).is_err() & p.module_name_from_path(&path("q.cm")).is_err(), "a file outside the source folder is no module");
    let db = SemanticDatabaseImpl::default(); let c = crate_from_project(&db, p); check(c.is_ok(), "the crate of a project is built"); let c = c.unwrap();
    let got = sorted(c.modules(&db).iter().map(|(n, f)| (n.clone(), f.text(&db).to_string(), f.file_path(&db).to_string())).collect::<Vec<_>>());
    check(got == sorted(want.iter().map(|w| (w.0.clone(), w.1.clone(), path(&format!("p/src/{}.cm", w.2)).to_string_lossy().to_string())).collect()), "the crate has one module per source file, with its content");
    for (n, f) in c.modules(&db).iter() { check(module_name_for_file(&db, c, *f) == Some(n.clone()), "a module is found by its file"); }
    check(c.entry_point(&db) == "main", "the entry module is the one of the manifest"); reach("end");
}
/// the entry point may be written in several ways; a manifest that lacks something is an error
pub fn h_proj_entry() {
    dir("p/src/a"); let names = ["main", "lib", "z_1", "with space", "ä", "src"]; let (n, shape) = (names[choose("entry", names.len())], choose("shape", 3));
    file(&format!("p/src/{n}.cm"), "use a::q::K;\nfn f() -> felt { return K; }"); file("p/src/a/q.cm", "const K = 3;");
    let entry = match shape { 0 => format!("{n}.cm"), 1 => format!("src/{n}.cm"), _ => path(&format!("p/src/{n}.cm")).to_string_lossy().to_string() };
    let mut m = vec![format!("entry_point = '{entry}'"), "name = \"p\\\"q\"".to_string(), "version = \"1.2.3\"".to_string()];
    let lost = choose("lost", 4); if lost < 3 { m.remove(lost); }
    match choose("extra", 4) { 0 => m.push("unknown = 1".into()), 1 => m.insert(0, "# name = \"x\"".into()), 2 => m.push("[table]\nname = \"x\"".into()), _ => () }
    file("p/cairom.toml", &m.join("\n")); note(&m.join("\n"));
    let p = discover_project(&path("p/src"));
    if lost < 2 { reach("incomplete"); check(p.is_err(), "a manifest without a name or an entry point is an error"); return }
    check(p.is_ok(), "a complete manifest is accepted"); let p = p.unwrap().unwrap();
    check((p.name == "p\"q") & (p.config.version == if lost == 2 { "0.1.0" } else { "1.2.3" }) & (p.config.entry_point == entry), "the manifest is read as it stands");
    check(p.root_directory == path(&format!("p/src/{n}.cm")), "the entry point is found under the source folder");
    let db = SemanticDatabaseImpl::default(); let c = crate_from_project(&db, p); check(c.is_ok(), "the crate of a project is built"); let c = c.unwrap();
    check(c.entry_point(&db) == n, "the entry module is the one of the manifest"); check(c.modules(&db).len() == 2, "every file is a module");
    check(!project_validate_semantics(&db, c).has_errors(), "modules of the project import each other by their paths"); reach("complete");
}
/// a file on its own, whatever its name
pub fn h_proj_alone() {
    let n = tier(2, 3); let l = 1 + choose("len", n); let name = text((0..l).map(|i| byte_in(&format!("c{i}"), b"a\"\\'%{}#=\n\t .-$")).map(|b| concretize(b as u64) as u8).collect());
    if (name == ".") | (name == "..") { return }
    let f = format!("{name}.cm"); dir("d"); file(&format!("d/{f}"), "fn f() -> felt { return 1; }"); file("d/other.cm", "bad"); note(&name);
    let start = if bool("relative") { PathBuf::from(format!("d/{f}")) } else { path(&format!("d/{f}")) };
    let p = discover_project(&start); check(p.is_ok(), "discovery succeeds"); let p = p.unwrap().unwrap();
    let files = p.source_files(); check(files.is_ok() && files.as_ref().unwrap().len() == 1, "a file without a manifest is a project of its own");
    check(files.unwrap()[0].canonicalize().ok() == path(&format!("d/{f}")).canonicalize().ok(), "its source is that file");
    check(p.config.entry_point == format!("{}.cm", p.name), "its entry point is the file");
    let db = SemanticDatabaseImpl::default(); let c = crate_from_project(&db, p); check(c.is_ok(), "the crate of a project is built"); let c = c.unwrap();
    check(c.modules(&db).len() == 1 && c.modules(&db).contains_key(&c.entry_point(&db)), "the file is the entry module");
    check(!project_validate_semantics(&db, c).has_errors(), "the file is analysed"); reach("end");
}
/// every manifest below the root of a workspace is one of its projects
pub fn h_proj_workspace() {
    let spots = ["", "a/", "a/src/", "a/b/", "c/d/e/"]; let mut want = vec![]; dir("w/c/d/e"); dir("w/a/b"); dir("w/a/src"); fs_reverse_order(bool("order"));
    for (i, s) in spots.iter().enumerate() { match choose(&format!("m{i}"), 3) { 0 => { file(&format!("w/{s}cairom.toml"), &manifest(&format!("n{i}"), "main.cm")); want.push((format!("n{i}"), path(&format!("w/{s}src/main.cm")))); } 1 => file(&format!("w/{s}cairom.toml"), "name = 3"), _ => file(&format!("w/{s}xcairom.toml"), &manifest("no", "main.cm")) } }
    let w = discover_workspace(&path("w")); check(w.is_ok(), "a broken manifest does not hide the others"); let w = w.unwrap();
    check(w.root_directory == path("w"), "the root of the workspace is the folder given");
    check(sorted(w.projects.values().map(|p| (p.name.clone(), p.root_directory.clone())).collect::<Vec<_>>()) == sorted(want.clone()), "the projects of a workspace are those of its readable manifests");
    check(w.name_to_id.len() == want.len(), "every project has an id"); for (n, r) in &want { check(w.name_to_id.get(n).and_then(|i| w.projects.get(i)).map(|p| &p.root_directory) == Some(r), "a project is found by its name"); } reach("end");
}
