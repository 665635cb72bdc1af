// In-memory file system with an explicit durability model.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Ino = usize;
pub type Res<T> = Result<T, i32>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    File,
    Dir,
    Symlink,
    DevNull,
    DevRandom,
    DevFull,
}

#[derive(Clone, Debug)]
pub enum DataOp {
    Write(u64, Rc<Vec<u8>>),
    Truncate(u64),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub data: Rc<Vec<u8>>, // file bytes, or link target
    pub durable: Rc<Vec<u8>>,
    pub pending: Vec<DataOp>,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub nlink: u32,
    pub mtime: u64,
    pub ctime: u64,
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, Ino>,
    dnames: BTreeMap<String, Ino>,
    journal: Vec<Vec<(String, Option<Ino>)>>,
    pub free: Option<u64>, // bytes that can still be allocated (None: unlimited)
    pub fsync_commits_names: bool,
    pub changes: u64, // counts mutations
}

pub fn apply(data: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::Write(off, b) => {
            let off = *off as usize;
            if data.len() < off + b.len() {
                data.resize(off + b.len(), 0);
            }
            data[off..off + b.len()].copy_from_slice(b);
        }
        DataOp::Truncate(n) => data.resize(*n as usize, 0),
    }
}

pub fn normalize(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs {
            inodes: vec![],
            names: BTreeMap::new(),
            dnames: BTreeMap::new(),
            journal: vec![],
            free: None,
            fsync_commits_names: true,
            changes: 0,
        };
        for d in ["/", "/tmp", "/dev", "/home", "/proc", "/proc/self"] {
            v.add_dir(d);
        }
        for (p, k) in [("/dev/null", Kind::DevNull), ("/dev/urandom", Kind::DevRandom), ("/dev/random", Kind::DevRandom), ("/dev/full", Kind::DevFull)] {
            v.raw_add(p, k, vec![], 0o20666);
        }
        v
    }
    fn raw_add(&mut self, p: &str, kind: Kind, data: Vec<u8>, mode: u32) -> Ino {
        let d = Rc::new(data);
        self.inodes.push(Inode { kind, data: d.clone(), durable: d, pending: vec![], mode, uid: 1000, gid: 1000, nlink: 1, mtime: 1_700_000_000_000_000_000, ctime: 1_700_000_000_000_000_000 });
        let i = self.inodes.len() - 1;
        self.names.insert(p.to_string(), i);
        self.dnames.insert(p.to_string(), i);
        i
    }
    pub fn add_dir(&mut self, p: &str) {
        let mut acc = String::new();
        if !self.names.contains_key("/") {
            self.raw_add("/", Kind::Dir, vec![], 0o40755);
        }
        for c in p.split('/').filter(|c| !c.is_empty()) {
            acc.push('/');
            acc.push_str(c);
            if !self.names.contains_key(&acc) {
                let a = acc.clone();
                self.raw_add(&a, Kind::Dir, vec![], 0o40755);
            }
        }
    }
    // set-up helpers: durable at once
    pub fn add_file(&mut self, p: &str, data: Vec<u8>, mode: u32) {
        self.add_dir(&parent(p));
        self.raw_add(p, Kind::File, data, 0o100000 | mode);
    }
    pub fn add_symlink(&mut self, p: &str, target: &str) {
        self.add_dir(&parent(p));
        self.raw_add(p, Kind::Symlink, target.as_bytes().to_vec(), 0o120777);
    }
    pub fn hard_link(&mut self, p: &str, existing: &str) {
        if let Some(&i) = self.names.get(existing) {
            self.inodes[i].nlink += 1;
            self.names.insert(p.to_string(), i);
            self.dnames.insert(p.to_string(), i);
        }
    }

    /// Resolve symlinks in every component (and in the last one if `follow`). Ok(path, inode or none).
    pub fn resolve(&self, cwd: &str, p: &str, follow: bool) -> Res<(String, Option<Ino>)> {
        if p.is_empty() {
            return Err(libc::ENOENT);
        }
        let trailing = p.ends_with('/') && p.len() > 1;
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
        let mut todo: Vec<String> = full.split('/').filter(|c| !c.is_empty() && *c != ".").map(String::from).rev().collect();
        let mut cur = String::from("/");
        let mut hops = 0;
        while let Some(c) = todo.pop() {
            if c == ".." {
                cur = parent(&cur);
                continue;
            }
            let next = if cur == "/" { format!("/{}", c) } else { format!("{}/{}", cur, c) };
            let last = todo.is_empty();
            match self.names.get(&next) {
                None => {
                    if last && !trailing {
                        return Ok((next, None));
                    }
                    return Err(libc::ENOENT);
                }
                Some(&i) => match self.inodes[i].kind {
                    Kind::Symlink if !last || follow || trailing => {
                        hops += 1;
                        if hops > 20 {
                            return Err(libc::ELOOP);
                        }
                        let t = String::from_utf8_lossy(&self.inodes[i].data).to_string();
                        if t.starts_with('/') {
                            cur = "/".into();
                        }
                        for c in t.split('/').filter(|c| !c.is_empty() && *c != ".").rev() {
                            todo.push(c.to_string());
                        }
                    }
                    Kind::Dir => cur = next,
                    _ if last => {
                        if trailing {
                            return Err(libc::ENOTDIR);
                        }
                        return Ok((next, Some(i)));
                    }
                    _ => return Err(libc::ENOTDIR),
                },
            }
        }
        let i = self.names.get(&cur).copied();
        Ok((cur, i))
    }
    pub fn get(&self, p: &str) -> Option<&Inode> {
        match self.resolve("/", p, true) {
            Ok((_, Some(i))) => Some(&self.inodes[i]),
            _ => None,
        }
    }
    pub fn content(&self, p: &str) -> Option<Rc<Vec<u8>>> {
        self.get(p).filter(|i| i.kind == Kind::File).map(|i| i.data.clone())
    }
    pub fn dir_mode(&self, p: &str) -> u32 {
        self.names.get(&parent(p)).map(|&i| self.inodes[i].mode).unwrap_or(0)
    }
    pub fn is_dir(&self, i: Ino) -> bool {
        self.inodes[i].kind == Kind::Dir
    }
    fn log(&mut self, ops: Vec<(String, Option<Ino>)>) {
        for (p, i) in &ops {
            match i {
                Some(i) => {
                    self.names.insert(p.clone(), *i);
                }
                None => {
                    self.names.remove(p);
                }
            }
        }
        self.journal.push(ops);
        self.changes += 1;
    }
    fn dir_writable(&self, p: &str) -> Res<()> {
        let d = parent(p);
        match self.names.get(&d) {
            Some(&i) if self.is_dir(i) => {
                if self.inodes[i].mode & 0o200 == 0 {
                    Err(libc::EACCES)
                } else {
                    Ok(())
                }
            }
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    }
    pub fn create(&mut self, p: &str, mode: u32, now: u64) -> Res<Ino> {
        self.dir_writable(p)?;
        if p.rsplit('/').next().unwrap_or("").len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        let e = Rc::new(vec![]);
        self.inodes.push(Inode { kind: Kind::File, data: e.clone(), durable: e, pending: vec![], mode: 0o100000 | (mode & !0o022 & 0o7777), uid: 1000, gid: 1000, nlink: 1, mtime: now, ctime: now });
        let i = self.inodes.len() - 1;
        self.log(vec![(p.to_string(), Some(i))]);
        Ok(i)
    }
    pub fn data_op(&mut self, i: Ino, op: DataOp, now: u64) {
        let ino = &mut self.inodes[i];
        let old = ino.data.len() as u64;
        apply(Rc::make_mut(&mut ino.data), &op);
        let new = ino.data.len() as u64;
        ino.pending.push(op);
        ino.mtime = now;
        ino.ctime = now;
        if let Some(f) = &mut self.free {
            *f = (*f + old).saturating_sub(new);
        }
        self.changes += 1;
    }
    /// How many of `n` bytes written at `off` fit on the disk.
    pub fn room(&self, i: Ino, off: u64, n: u64) -> u64 {
        match self.free {
            None => n,
            Some(f) => {
                let cur = self.inodes[i].data.len() as u64;
                let can = cur.max(off) + f;
                can.saturating_sub(off).min(n)
            }
        }
    }
    pub fn fsync(&mut self, i: Ino) {
        let ino = &mut self.inodes[i];
        ino.durable = ino.data.clone();
        ino.pending.clear();
        let isdir = ino.kind == Kind::Dir;
        if isdir || self.fsync_commits_names {
            self.commit_names();
        }
    }
    pub fn sync_all(&mut self) {
        for ino in &mut self.inodes {
            ino.durable = ino.data.clone();
            ino.pending.clear();
        }
        self.commit_names();
    }
    fn commit_names(&mut self) {
        for g in std::mem::take(&mut self.journal) {
            for (p, i) in g {
                match i {
                    Some(i) => {
                        self.dnames.insert(p, i);
                    }
                    None => {
                        self.dnames.remove(&p);
                    }
                }
            }
        }
    }
    pub fn rename(&mut self, a: &str, b: &str, now: u64) -> Res<()> {
        let &ia = self.names.get(a).ok_or(libc::ENOENT)?;
        self.dir_writable(a)?;
        self.dir_writable(b)?;
        if a == b {
            return Ok(());
        }
        if let Some(&ib) = self.names.get(b) {
            if self.is_dir(ib) && !self.is_dir(ia) {
                return Err(libc::EISDIR);
            }
            if !self.is_dir(ib) && self.is_dir(ia) {
                return Err(libc::ENOTDIR);
            }
            if ia == ib {
                return Ok(());
            }
            self.inodes[ib].nlink -= 1;
            self.release(ib);
        }
        self.inodes[ia].ctime = now;
        let mut ops = vec![(a.to_string(), None), (b.to_string(), Some(ia))];
        if self.is_dir(ia) {
            let pre = format!("{}/", a);
            for (p, &i) in self.names.range(pre.clone()..) {
                if !p.starts_with(&pre) {
                    break;
                }
                ops.push((p.clone(), None));
                ops.push((format!("{}/{}", b, &p[pre.len()..]), Some(i)));
            }
        }
        self.log(ops);
        Ok(())
    }
    fn release(&mut self, i: Ino) {
        if self.inodes[i].nlink == 0 {
            if let Some(f) = &mut self.free {
                *f += self.inodes[i].data.len() as u64;
            }
        }
    }
    pub fn unlink(&mut self, p: &str, rmdir: bool) -> Res<()> {
        let &i = self.names.get(p).ok_or(libc::ENOENT)?;
        self.dir_writable(p)?;
        if self.is_dir(i) != rmdir {
            return Err(if rmdir { libc::ENOTDIR } else { libc::EISDIR });
        }
        if rmdir && self.names.range(format!("{}/", p)..).next().is_some_and(|(k, _)| k.starts_with(&format!("{}/", p))) {
            return Err(libc::ENOTEMPTY);
        }
        self.inodes[i].nlink -= 1;
        self.release(i);
        self.log(vec![(p.to_string(), None)]);
        Ok(())
    }
    pub fn mkdir(&mut self, p: &str, mode: u32, now: u64) -> Res<()> {
        if self.names.contains_key(p) {
            return Err(libc::EEXIST);
        }
        self.dir_writable(p)?;
        let e = Rc::new(vec![]);
        self.inodes.push(Inode { kind: Kind::Dir, data: e.clone(), durable: e, pending: vec![], mode: 0o40000 | (mode & 0o755), uid: 1000, gid: 1000, nlink: 1, mtime: now, ctime: now });
        let i = self.inodes.len() - 1;
        self.log(vec![(p.to_string(), Some(i))]);
        Ok(())
    }
    pub fn link(&mut self, a: &str, b: &str) -> Res<()> {
        let &ia = self.names.get(a).ok_or(libc::ENOENT)?;
        if self.names.contains_key(b) {
            return Err(libc::EEXIST);
        }
        self.dir_writable(b)?;
        self.inodes[ia].nlink += 1;
        self.log(vec![(b.to_string(), Some(ia))]);
        Ok(())
    }
    pub fn symlink(&mut self, target: &str, p: &str, now: u64) -> Res<()> {
        if self.names.contains_key(p) {
            return Err(libc::EEXIST);
        }
        self.dir_writable(p)?;
        let e = Rc::new(target.as_bytes().to_vec());
        self.inodes.push(Inode { kind: Kind::Symlink, data: e.clone(), durable: e, pending: vec![], mode: 0o120777, uid: 1000, gid: 1000, nlink: 1, mtime: now, ctime: now });
        let i = self.inodes.len() - 1;
        self.log(vec![(p.to_string(), Some(i))]);
        Ok(())
    }
    pub fn list(&self, d: &str) -> Vec<(u8, String)> {
        let pre = if d == "/" { "/".to_string() } else { format!("{}/", d) };
        let mut out = vec![(4u8, ".".to_string()), (4, "..".to_string())];
        for (p, &i) in self.names.range(pre.clone()..) {
            if !p.starts_with(&pre) {
                break;
            }
            let rest = &p[pre.len()..];
            if rest.is_empty() || rest.contains('/') {
                continue;
            }
            let t = match self.inodes[i].kind {
                Kind::Dir => 4,
                Kind::Symlink => 10,
                Kind::File => 8,
                _ => 2,
            };
            out.push((t, rest.to_string()));
        }
        out
    }

    /// What a power cut leaves on the disk: names are a prefix of the name-operation journal, every file's data is its
    /// last synced bytes plus a (possibly torn) prefix of the unsynced operations.
    pub fn power_loss(&self, variant: u64) -> Vfs {
        let mut r = Rng::new(variant);
        let n = self.journal.len() as u64;
        let k = match r.below(4) {
            0 => 0,
            1 | 2 => n,
            _ => r.below(n + 1),
        };
        let mut out = self.clone();
        out.names = self.dnames.clone();
        for g in &self.journal[..k as usize] {
            for (p, i) in g {
                match i {
                    Some(i) => {
                        out.names.insert(p.clone(), *i);
                    }
                    None => {
                        out.names.remove(p);
                    }
                }
            }
        }
        for ino in &mut out.inodes {
            if ino.pending.is_empty() {
                ino.data = ino.durable.clone();
                continue;
            }
            let m = ino.pending.len() as u64;
            let mode = r.below(6);
            let keep = match mode {
                0 => 0,
                1 => m,
                _ => r.below(m + 1),
            };
            let mut d = (*ino.durable).clone();
            for op in &ino.pending[..keep as usize] {
                apply(&mut d, op);
            }
            if keep < m && mode >= 3 {
                if let DataOp::Write(off, b) = &ino.pending[keep as usize] {
                    let len = b.len() as u64;
                    let cut = match mode {
                        3 => r.below(len + 1),
                        4 => (r.below(len / 512 + 1)) * 512,
                        _ => 0,
                    }
                    .min(len);
                    if cut > 0 {
                        apply(&mut d, &DataOp::Write(*off, Rc::new(b[..cut as usize].to_vec())));
                    }
                    if mode == 5 {
                        // size reached the disk, the data did not
                        let end = (*off + len) as usize;
                        if d.len() < end {
                            d.resize(end, 0);
                        }
                    }
                }
            }
            ino.data = Rc::new(d);
        }
        out.journal.clear();
        out.dnames = out.names.clone();
        for ino in &mut out.inodes {
            ino.durable = ino.data.clone();
            ino.pending.clear();
        }
        // link counts
        for ino in &mut out.inodes {
            ino.nlink = 0;
        }
        let names: Vec<Ino> = out.names.values().copied().collect();
        for i in names {
            out.inodes[i].nlink += 1;
        }
        out.changes += 1;
        out
    }

    /// (path -> description) of every name, for footprint comparison.
    pub fn tree(&self) -> BTreeMap<String, (u8, u32, Rc<Vec<u8>>, u64, Ino)> {
        self.names
            .iter()
            .map(|(p, &i)| {
                let n = &self.inodes[i];
                let k = match n.kind {
                    Kind::File => 0,
                    Kind::Dir => 1,
                    Kind::Symlink => 2,
                    _ => 3,
                };
                (p.clone(), (k, n.mode, n.data.clone(), n.mtime, i))
            })
            .collect()
    }
    pub fn state_hash(&self) -> u64 {
        let mut h = 0u64;
        for (p, &i) in &self.names {
            let n = &self.inodes[i];
            if n.kind == Kind::Dir {
                continue;
            }
            h = crate::rng::mix(h ^ crate::rng::hash_bytes(p.as_bytes()));
            h = crate::rng::mix(h ^ n.data.len() as u64 ^ ((n.mode as u64) << 40) ^ ((n.pending.len().min(3) as u64) << 56));
            let d = &n.data;
            let k = d.len();
            h ^= crate::rng::hash_bytes(&d[..k.min(64)]) ^ crate::rng::hash_bytes(&d[k.saturating_sub(64)..]).rotate_left(7);
        }
        h
    }
}
