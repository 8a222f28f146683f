//! In-memory file system used by code that reads or writes project files (stand-in for libc calls).
use crate::exec::*;
use crate::ir::CallI;
use std::rc::Rc;

const ERRNO: u64 = crate::mem::HEAP + 64;
fn fail(s: &mut State, e: u64) -> Val { s.mem.store(ERRNO, 4, e); Val::I(u64::MAX) }
fn norm(p: &[u8]) -> Vec<u8> {
    let mut full: Vec<u8> = if p.first() == Some(&b'/') { vec![] } else { b"/w/".to_vec() };
    full.extend_from_slice(p);
    let mut segs: Vec<&[u8]> = vec![];
    for x in full.split(|c| *c == b'/') { match x { b"" | b"." => {} b".." => { segs.pop(); } x => segs.push(x) } }
    let mut o = vec![]; for x in segs { o.push(b'/'); o.extend_from_slice(x); } if o.is_empty() { o.push(b'/') } o
}
fn parent(p: &[u8]) -> Vec<u8> { let i = p.iter().rposition(|c| *c == b'/').unwrap_or(0); if i == 0 { b"/".to_vec() } else { p[..i].to_vec() } }
fn lookup(s: &State, p: &[u8]) -> Option<Node> {
    // every component must be a directory
    let n = norm(p);
    if n == b"/" || n == b"/w" { return Some(Node::Dir); }
    let r = s.fs.get(&n).cloned();
    if p.last() == Some(&b'/') { if let Some(Node::File(_)) = r { return None; } }
    r
}
fn add_parents(m: &mut std::collections::BTreeMap<Vec<u8>, Node>, p: &[u8]) { let mut q = parent(p); while q != b"/" { m.entry(q.clone()).or_insert(Node::Dir); q = parent(&q); } }
fn ino(p: &[u8]) -> u64 { let mut h = 1469598103934665603u64; for b in p { h = (h ^ *b as u64).wrapping_mul(1099511628211); } h >> 8 | 1 }
fn fill_stat(s: &mut State, b: u64, n: &Node, p: &[u8], x: bool) {
    let (mode, size) = match n { Node::File(d) => (0o100644u64, d.len() as u64), Node::Dir => (0o040755, 4096) };
    if x { s.mem.fill(b, 0, 256); s.mem.store(b, 4, 0xfff); s.mem.store(b + 4, 4, 4096); s.mem.store(b + 16, 4, 1); s.mem.store(b + 28, 2, mode); s.mem.store(b + 32, 8, ino(p)); s.mem.store(b + 40, 8, size); }
    else { s.mem.fill(b, 0, 144); s.mem.store(b, 8, 1); s.mem.store(b + 8, 8, ino(p)); s.mem.store(b + 16, 8, 1); s.mem.store(b + 24, 4, mode); s.mem.store(b + 48, 8, size); s.mem.store(b + 56, 8, 4096); }
}
pub fn fscall(ex: &mut Ex, s: &mut State, b: &str, a: &[Val], c: &CallI, fid: u32) -> Res<Val> {
    let _ = c;
    Ok(match b {
        "Open" => {
            let p = ex.arg(s, a, 0)?; let fl = ex.arg(s, a, 1)?; let path = ex.path_arg(s, p)?;
            let np = norm(&path);
            let acc = fl & 3;
            let cur = lookup(s, &path);
            if fl & 0o200000 != 0 { match cur { Some(Node::Dir) => {} Some(_) => return Ok(fail(s, 20)), None => return Ok(fail(s, 2)) } }
            match cur {
                None => { if fl & 0o100 == 0 { return Ok(fail(s, 2)); } match lookup(s, &parent(&np)) { Some(Node::Dir) => {} _ => return Ok(fail(s, 2)) } let m = Rc::make_mut(&mut s.fs); m.insert(np.clone(), Node::File(Rc::new(vec![]))); }
                Some(Node::Dir) if acc != 0 => return Ok(fail(s, 21)),
                Some(Node::File(_)) if fl & 0o300 == 0o300 => return Ok(fail(s, 17)),
                Some(Node::File(_)) if fl & 0o1000 != 0 && acc != 0 => { Rc::make_mut(&mut s.fs).insert(np.clone(), Node::File(Rc::new(vec![]))); }
                _ => {}
            }
            let fds = Rc::make_mut(&mut s.fds); let mut fd = 10; while fds.contains_key(&fd) { fd += 1; }
            fds.insert(fd, Fd { path: np, pos: 0, dir: None });
            Val::I(fd)
        }
        "Read" => {
            let fd = ex.arg(s, a, 0)?; let buf = ex.arg(s, a, 1)?; let n = ex.arg(s, a, 2)?;
            let f = match s.fds.get(&fd) { Some(f) => f.clone(), None => return Ok(fail(s, 9)) };
            match s.fs.get(&f.path).cloned() { Some(Node::File(d)) => { let k = n.min((d.len() as u64).saturating_sub(f.pos)); for i in 0..k { let (v, e) = d[(f.pos + i) as usize]; s.mem.set(buf + i, v, e); } Rc::make_mut(&mut s.fds).get_mut(&fd).unwrap().pos += k; Val::I(k) } _ => fail(s, 21) }
        }
        "Write" => {
            let fd = ex.arg(s, a, 0)?; let n = ex.arg(s, a, 2)?;
            if ex.fname(fid) == "writev" { // iovec total
                let iov = ex.arg(s, a, 1)?; let mut t = 0; for i in 0..n { if let crate::mem::Ld::C(v) = s.mem.load(iov + i * 16 + 8, 8) { t += v } } return Ok(Val::I(t)); }
            if fd < 3 { return Ok(Val::I(n)); }
            let buf = ex.arg(s, a, 1)?;
            let f = match s.fds.get(&fd) { Some(f) => f.clone(), None => return Ok(fail(s, 9)) };
            match s.fs.get(&f.path).cloned() { Some(Node::File(d)) => { let mut d = (*d).clone(); if d.len() < (f.pos + n) as usize { d.resize((f.pos + n) as usize, (0, 0)); } for i in 0..n { d[(f.pos + i) as usize] = s.mem.byte(buf + i); } Rc::make_mut(&mut s.fs).insert(f.path, Node::File(Rc::new(d))); Rc::make_mut(&mut s.fds).get_mut(&fd).unwrap().pos += n; Val::I(n) } _ => fail(s, 9) }
        }
        "Close" => { let fd = ex.arg(s, a, 0)?; Rc::make_mut(&mut s.fds).remove(&fd); Val::I(0) }
        "Lseek" => { let fd = ex.arg(s, a, 0)?; let off = ex.arg(s, a, 1)?; let wh = ex.arg(s, a, 2)?; let f = match s.fds.get(&fd) { Some(f) => f.clone(), None => return Ok(fail(s, 9)) }; let len = match s.fs.get(&f.path) { Some(Node::File(d)) => d.len() as u64, _ => 0 }; let np = match wh { 0 => off, 1 => f.pos.wrapping_add(off), _ => len.wrapping_add(off) }; Rc::make_mut(&mut s.fds).get_mut(&fd).unwrap().pos = np; Val::I(np) }
        "Stat" => { let p = ex.arg(s, a, 0)?; let buf = ex.arg(s, a, 1)?; let path = ex.path_arg(s, p)?; match lookup(s, &path) { Some(n) => { fill_stat(s, buf, &n, &norm(&path), false); Val::I(0) } None => fail(s, 2) } }
        "Fstat" => { let fd = ex.arg(s, a, 0)?; let buf = ex.arg(s, a, 1)?; let f = match s.fds.get(&fd) { Some(f) => f.clone(), None => return Ok(fail(s, 9)) }; match lookup(s, &f.path) { Some(n) => { fill_stat(s, buf, &n, &f.path, false); Val::I(0) } None => fail(s, 2) } }
        "Statx" => { let fd = ex.arg(s, a, 0)? as u32 as i32; let p = ex.arg(s, a, 1)?; let buf = ex.arg(s, a, 4)?; if p == 0 { return Ok(fail(s, 14)); } let mut path = if fd == -100 { ex.path_arg(s, p)? } else { ex.zstr(s, p)? }; if path.is_empty() || (path[0] != b'/' && fd != -100) { match s.fds.get(&(fd as u64)) { Some(f) => { let mut q = f.path.clone(); if !path.is_empty() { q.push(b'/'); q.extend(path); } path = q } None => return Ok(fail(s, 2)) } } match lookup(s, &path) { Some(n) => { fill_stat(s, buf, &n, &norm(&path), true); Val::I(0) } None => fail(s, 2) } }
        "Realpath" => { let p = ex.arg(s, a, 0)?; let out = ex.arg(s, a, 1)?; let path = ex.path_arg(s, p)?; if path.is_empty() || lookup(s, &path).is_none() { s.mem.store(ERRNO, 4, 2); return Ok(Val::I(0)); } let mut n = norm(&path); n.push(0); let q = if out == 0 { ex.halloc(s, n.len() as u64) } else { out }; s.mem.write(q, &n); Val::I(q) }
        "Chdir" => { let p = ex.arg(s, a, 0)?; let path = ex.path_arg(s, p)?; if path.is_empty() { return Ok(fail(s, 2)); } match lookup(s, &path) { Some(Node::Dir) => { s.cwd = Rc::new(norm(&path)); Val::I(0) } Some(_) => fail(s, 20), None => fail(s, 2) } }
        "Mkdir" => { let p = ex.arg(s, a, 0)?; let path = ex.path_arg(s, p)?; let np = norm(&path); if path.is_empty() { return Ok(fail(s, 2)); } if lookup(s, &np).is_some() { return Ok(fail(s, 17)); } match lookup(s, &parent(&np)) { Some(Node::Dir) => {} Some(_) => return Ok(fail(s, 20)), None => return Ok(fail(s, 2)) } Rc::make_mut(&mut s.fs).insert(np, Node::Dir); Val::I(0) }
        "Unlink" => { let p = ex.arg(s, a, 0)?; let path = ex.path_arg(s, p)?; let np = norm(&path); match lookup(s, &np) { Some(Node::File(_)) => { Rc::make_mut(&mut s.fs).remove(&np); Val::I(0) } Some(_) => fail(s, 21), None => fail(s, 2) } }
        "OpenDir" => {
            let p = ex.arg(s, a, 0)?; let path = ex.path_arg(s, p)?;
            match lookup(s, &path) { Some(Node::Dir) => {} Some(_) => { s.mem.store(ERRNO, 4, 20); return Ok(Val::I(0)); } None => { s.mem.store(ERRNO, 4, 2); return Ok(Val::I(0)); } }
            let np = norm(&path);
            let mut names: Vec<(Vec<u8>, bool)> = vec![(b".".to_vec(), true), (b"..".to_vec(), true)];
            let mut pre = np.clone(); if pre != b"/" { pre.push(b'/'); }
            let mut own = vec![];
            for (k, v) in s.fs.iter() { if k.starts_with(&pre) && k.len() > pre.len() && !k[pre.len()..].contains(&b'/') { own.push((k[pre.len()..].to_vec(), matches!(v, Node::Dir))); } }
            if s.fs_rev { own.reverse(); }
            names.extend(own);
            let h = ex.halloc(s, 512);
            Rc::make_mut(&mut s.fds).insert(h, Fd { path: np, pos: 0, dir: Some(Rc::new(names)) });
            Val::I(h)
        }
        "ReadDir" => {
            let h = ex.arg(s, a, 0)?;
            let f = match s.fds.get(&h) { Some(f) => f.clone(), None => return Err(End::Err("readdir on unknown handle".into())) };
            let d = f.dir.clone().unwrap();
            if f.pos as usize >= d.len() { return Ok(Val::I(0)); }
            let (n, dir) = &d[f.pos as usize];
            s.mem.fill(h, 0, 300);
            let mut full = f.path.clone(); full.push(b'/'); full.extend(n);
            s.mem.store(h, 8, ino(&full)); s.mem.store(h + 16, 2, 24 + n.len() as u64); s.mem.store(h + 18, 1, if *dir { 4 } else { 8 }); s.mem.write(h + 19, n);
            Rc::make_mut(&mut s.fds).get_mut(&h).unwrap().pos += 1;
            Val::I(h)
        }
        "CloseDir" => { let h = ex.arg(s, a, 0)?; Rc::make_mut(&mut s.fds).remove(&h); Val::I(0) }
        "Dirfd" => { let h = ex.arg(s, a, 0)?; Val::I(h) }
        // harness intrinsics: symex_fs_file(path, len, data, dlen), symex_fs_dir(path, len), symex_fs_get(path, len, buf, cap) -> len | -1, symex_fs_count() -> files
        "SFile" => { let p = ex.arg(s, a, 0)?; let n = ex.arg(s, a, 1)?; let d = ex.arg(s, a, 2)?; let k = ex.arg(s, a, 3)?; let path = norm(&ex.conc_bytes(s, p, n)?); let data: Vec<(u8, crate::expr::E)> = (0..k).map(|i| s.mem.byte(d + i)).collect(); let m = Rc::make_mut(&mut s.fs); add_parents(m, &path); m.insert(path, Node::File(Rc::new(data))); Val::I(0) }
        "SDir" => { let p = ex.arg(s, a, 0)?; let n = ex.arg(s, a, 1)?; let path = norm(&ex.conc_bytes(s, p, n)?); let m = Rc::make_mut(&mut s.fs); add_parents(m, &path); m.insert(path, Node::Dir); Val::I(0) }
        "SFsGet" => { let p = ex.arg(s, a, 0)?; let n = ex.arg(s, a, 1)?; let buf = ex.arg(s, a, 2)?; let cap = ex.arg(s, a, 3)?; let path = norm(&ex.conc_bytes(s, p, n)?); match s.fs.get(&path).cloned() { Some(Node::File(d)) => { for (i, (v, e)) in d.iter().enumerate().take(cap as usize) { s.mem.set(buf + i as u64, *v, *e); } Val::I(d.len() as u64) } Some(Node::Dir) => Val::I(u64::MAX - 1), None => Val::I(u64::MAX) } }
        "SFsCount" => { let r = ex.arg(s, a, 0)?; if r & 0x100 != 0 { s.fs_rev = r & 1 != 0; Val::I(0) } else { Val::I(s.fs.values().filter(|x| matches!(x, Node::File(_))).count() as u64) } }
        _ => return Err(End::Err(format!("libc call not modelled: {} {} in {}", b, ex.fname(fid), ex.where_am_i(s)))),
    })
}
