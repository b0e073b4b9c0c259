//! An in-memory file system with explicit durability.
//!
//! Every file keeps its current content, its durable content and the list of writes
//! issued since the last sync; every directory keeps its current entries, its durable
//! entries and the list of entry operations issued since the last directory sync.
//! A power loss keeps the durable state plus, per file, an arbitrary subset of the
//! pending writes (the last kept one possibly torn at a 512-byte sector boundary or
//! inside it) and, per directory, a prefix of the pending entry operations.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const SIM_FD_BASE: i32 = 1_000_000;

#[derive(Clone, Debug)]
pub enum Pend {
    Write { off: usize, data: Vec<u8> },
    Trunc(usize),
}

#[derive(Clone, Debug)]
pub enum DirOp {
    Set(String, u64),
    Del(String),
    /// Rename inside one directory: atomic.
    Ren(String, String, u64),
}

#[derive(Clone, Debug, Default)]
pub struct FileData {
    pub cur: Vec<u8>,
    pub dur: Vec<u8>,
    pub pend: Vec<Pend>,
}

#[derive(Clone, Debug, Default)]
pub struct DirData {
    pub cur: BTreeMap<String, u64>,
    pub dur: BTreeMap<String, u64>,
    pub pend: Vec<DirOp>,
    pub parent: u64,
}

#[derive(Clone, Debug)]
pub enum Node {
    File(FileData),
    Dir(DirData),
    Urandom,
    Null,
}

#[derive(Clone, Debug)]
pub struct OpenFile {
    pub ino: u64,
    pub pos: usize,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub dir_list: Option<(Vec<(String, u64, bool)>, usize)>,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: BTreeMap<u64, Node>,
    pub next_ino: u64,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    /// Absolute paths touched (normalised): path -> touched by a mutating operation.
    pub touched: BTreeMap<String, bool>,
    pub flocks: BTreeMap<u64, BTreeMap<i32, bool>>,
    /// Limit on the total bytes of current file content (full disk), if any.
    pub capacity: Option<usize>,
}

fn apply(cur: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Write { off, data } => {
            let end = off + data.len();
            if cur.len() < end {
                cur.resize(end, 0);
            }
            cur[*off..end].copy_from_slice(data);
        }
        Pend::Trunc(n) => cur.resize(*n, 0),
    }
}

fn apply_dir(m: &mut BTreeMap<String, u64>, op: &DirOp) {
    match op {
        DirOp::Set(n, i) => {
            m.insert(n.clone(), *i);
        }
        DirOp::Del(n) => {
            m.remove(n);
        }
        DirOp::Ren(a, b, i) => {
            m.remove(a);
            m.insert(b.clone(), *i);
        }
    }
}

impl Default for Fs {
    fn default() -> Self {
        Self::new()
    }
}

impl Fs {
    pub fn new() -> Self {
        let mut fs = Fs {
            inodes: BTreeMap::new(),
            next_ino: 2,
            fds: BTreeMap::new(),
            next_fd: SIM_FD_BASE,
            touched: BTreeMap::new(),
            flocks: BTreeMap::new(),
            capacity: None,
        };
        fs.inodes.insert(
            1,
            Node::Dir(DirData {
                parent: 1,
                ..Default::default()
            }),
        );
        for d in ["/dev", "/tmp", "/etc", "/cwd", "/var", "/var/tmp", "/simdisk"] {
            fs.provision_dir(d);
        }
        let dev = fs.lookup("/dev").unwrap();
        for (name, node) in [("urandom", Node::Urandom), ("null", Node::Null)] {
            let ino = fs.next_ino;
            fs.next_ino += 1;
            fs.inodes.insert(ino, node);
            if let Some(Node::Dir(d)) = fs.inodes.get_mut(&dev) {
                d.cur.insert(name.into(), ino);
                d.dur.insert(name.into(), ino);
            }
        }
        fs.provision_file("/etc/canary", b"outside");
        fs
    }

    /// Creates a durable directory (with parents), outside of any simulated call.
    pub fn provision_dir(&mut self, path: &str) {
        let mut ino = 1u64;
        for comp in path.split('/').filter(|c| !c.is_empty()) {
            let next = match &self.inodes[&ino] {
                Node::Dir(d) => d.cur.get(comp).copied(),
                _ => panic!("provision through a file"),
            };
            ino = match next {
                Some(n) => n,
                None => {
                    let n = self.next_ino;
                    self.next_ino += 1;
                    self.inodes.insert(
                        n,
                        Node::Dir(DirData {
                            parent: ino,
                            ..Default::default()
                        }),
                    );
                    if let Some(Node::Dir(d)) = self.inodes.get_mut(&ino) {
                        d.cur.insert(comp.into(), n);
                        d.dur.insert(comp.into(), n);
                    }
                    n
                }
            };
        }
    }

    pub fn provision_file(&mut self, path: &str, content: &[u8]) {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let dino = self.lookup(dir).unwrap();
        let n = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(
            n,
            Node::File(FileData {
                cur: content.to_vec(),
                dur: content.to_vec(),
                pend: vec![],
            }),
        );
        if let Some(Node::Dir(d)) = self.inodes.get_mut(&dino) {
            d.cur.insert(name.into(), n);
            d.dur.insert(name.into(), n);
        }
    }

    /// Resolves a path to (parent inode, last component, inode if it exists, normalised path).
    /// `base` is the inode relative paths start from.
    pub fn resolve(
        &self,
        base: u64,
        path: &str,
    ) -> Result<(u64, String, Option<u64>, String), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut ino = if path.starts_with('/') { 1 } else { base };
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
        let must_dir = path.ends_with('/');
        let mut names: Vec<String> = self.path_of(ino);
        if comps.is_empty() {
            return Ok((1, "/".into(), Some(1), "/".into()));
        }
        let mut parent = ino;
        let mut last = ".".to_string();
        for (i, comp) in comps.iter().enumerate() {
            if comp.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let d = match &self.inodes[&ino] {
                Node::Dir(d) => d,
                _ => return Err(libc::ENOTDIR),
            };
            if *comp == "." {
                last = ".".into();
                parent = ino;
                continue;
            }
            if *comp == ".." {
                ino = d.parent;
                names.pop();
                last = "..".into();
                parent = ino;
                continue;
            }
            names.push(comp.to_string());
            match d.cur.get(*comp) {
                Some(n) => {
                    parent = ino;
                    last = comp.to_string();
                    ino = *n;
                }
                None => {
                    if i + 1 == comps.len() {
                        return Ok((
                            ino,
                            if must_dir {
                                format!("{comp}/")
                            } else {
                                comp.to_string()
                            },
                            None,
                            format!("/{}", names.join("/")),
                        ));
                    }
                    return Err(libc::ENOENT);
                }
            }
        }
        if must_dir && !matches!(self.inodes[&ino], Node::Dir(_)) {
            return Err(libc::ENOTDIR);
        }
        Ok((parent, last, Some(ino), format!("/{}", names.join("/"))))
    }

    fn path_of(&self, ino: u64) -> Vec<String> {
        let mut out = vec![];
        let mut i = ino;
        while i != 1 {
            let p = match &self.inodes[&i] {
                Node::Dir(d) => d.parent,
                _ => 1,
            };
            if let Node::Dir(d) = &self.inodes[&p] {
                if let Some((n, _)) = d.cur.iter().find(|(_, v)| **v == i) {
                    out.push(n.clone());
                } else {
                    out.push("<unlinked>".into());
                }
            }
            i = p;
        }
        out.reverse();
        out
    }

    pub fn lookup(&self, path: &str) -> Option<u64> {
        self.resolve(1, path).ok().and_then(|r| r.2)
    }

    pub fn cwd(&self) -> u64 {
        self.lookup("/cwd").unwrap_or(1)
    }

    pub fn touch(&mut self, path: &str, mutating: bool) {
        let e = self.touched.entry(path.to_string()).or_insert(false);
        *e |= mutating;
    }

    pub fn used(&self) -> usize {
        self.inodes
            .values()
            .map(|n| match n {
                Node::File(f) => f.cur.len(),
                _ => 0,
            })
            .sum()
    }

    pub fn open(&mut self, base: u64, path: &str, flags: i32) -> Result<i32, i32> {
        let (parent, name, ino, norm) = self.resolve(base, path)?;
        let acc = flags & libc::O_ACCMODE;
        let write = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let read = acc == libc::O_RDONLY || acc == libc::O_RDWR;
        let mutating = write || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
        let ino = match ino {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                match &self.inodes[&i] {
                    Node::Dir(_) => {
                        if write || flags & libc::O_CREAT != 0 {
                            return Err(libc::EISDIR);
                        }
                    }
                    _ => {
                        if flags & libc::O_DIRECTORY != 0 {
                            return Err(libc::ENOTDIR);
                        }
                    }
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                if name.ends_with('/') {
                    return Err(libc::EISDIR);
                }
                let n = self.next_ino;
                self.next_ino += 1;
                self.inodes.insert(n, Node::File(FileData::default()));
                self.dir_op(parent, DirOp::Set(name, n));
                n
            }
        };
        self.touch(&norm, mutating);
        if flags & libc::O_TRUNC != 0 && write {
            self.truncate(ino, 0);
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            OpenFile {
                ino,
                pos: 0,
                read,
                write,
                append: flags & libc::O_APPEND != 0,
                dir_list: None,
                path: norm,
            },
        );
        Ok(fd)
    }

    fn dir_op(&mut self, dir: u64, op: DirOp) {
        if let Some(Node::Dir(d)) = self.inodes.get_mut(&dir) {
            apply_dir(&mut d.cur, &op);
            d.pend.push(op);
        }
    }

    pub fn truncate(&mut self, ino: u64, len: usize) {
        if let Some(Node::File(f)) = self.inodes.get_mut(&ino) {
            if f.cur.len() != len {
                f.cur.resize(len, 0);
                f.pend.push(Pend::Trunc(len));
            }
        }
    }

    pub fn write_at(&mut self, ino: u64, off: usize, data: &[u8]) -> Result<usize, i32> {
        let used = if self.capacity.is_some() { self.used() } else { 0 };
        let cap = self.capacity;
        match self.inodes.get_mut(&ino) {
            Some(Node::File(f)) => {
                let mut n = data.len();
                if let Some(cap) = cap {
                    let grow = (off + n).saturating_sub(f.cur.len());
                    if grow > 0 && used + grow > cap {
                        let room = cap.saturating_sub(used);
                        let keep = n.saturating_sub(grow) + room.min(grow);
                        if keep == 0 {
                            return Err(libc::ENOSPC);
                        }
                        n = keep;
                    }
                }
                let p = Pend::Write {
                    off,
                    data: data[..n].to_vec(),
                };
                apply(&mut f.cur, &p);
                f.pend.push(p);
                Ok(n)
            }
            Some(Node::Null) => Ok(data.len()),
            Some(Node::Urandom) => Ok(data.len()),
            Some(Node::Dir(_)) => Err(libc::EISDIR),
            None => Err(libc::EBADF),
        }
    }

    pub fn sync_file(&mut self, ino: u64) {
        match self.inodes.get_mut(&ino) {
            Some(Node::File(f)) => {
                if !f.pend.is_empty() {
                    f.dur = f.cur.clone();
                    f.pend.clear();
                }
            }
            Some(Node::Dir(d)) => {
                d.dur = d.cur.clone();
                d.pend.clear();
            }
            _ => {}
        }
    }

    pub fn mkdir(&mut self, base: u64, path: &str) -> Result<(), i32> {
        let (parent, name, ino, norm) = self.resolve(base, path)?;
        if ino.is_some() {
            return Err(libc::EEXIST);
        }
        let name = name.trim_end_matches('/').to_string();
        let n = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(
            n,
            Node::Dir(DirData {
                parent,
                ..Default::default()
            }),
        );
        self.dir_op(parent, DirOp::Set(name, n));
        self.touch(&norm, true);
        Ok(())
    }

    pub fn unlink(&mut self, base: u64, path: &str, dir: bool) -> Result<(), i32> {
        let (parent, name, ino, norm) = self.resolve(base, path)?;
        let ino = ino.ok_or(libc::ENOENT)?;
        match &self.inodes[&ino] {
            Node::Dir(d) => {
                if !dir {
                    return Err(libc::EISDIR);
                }
                if !d.cur.is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
            }
            _ => {
                if dir {
                    return Err(libc::ENOTDIR);
                }
            }
        }
        self.dir_op(parent, DirOp::Del(name));
        self.touch(&norm, true);
        Ok(())
    }

    pub fn rename(&mut self, b1: u64, from: &str, b2: u64, to: &str) -> Result<(), i32> {
        let (p1, n1, i1, norm1) = self.resolve(b1, from)?;
        let i1 = i1.ok_or(libc::ENOENT)?;
        let (p2, n2, i2, norm2) = self.resolve(b2, to)?;
        let n2 = n2.trim_end_matches('/').to_string();
        if let Some(i2) = i2 {
            if i1 == i2 {
                return Ok(());
            }
            match (&self.inodes[&i1], &self.inodes[&i2]) {
                (Node::Dir(_), Node::Dir(d)) => {
                    if !d.cur.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                }
                (Node::Dir(_), _) => return Err(libc::ENOTDIR),
                (_, Node::Dir(_)) => return Err(libc::EISDIR),
                _ => {}
            }
        }
        if p1 == p2 {
            self.dir_op(p1, DirOp::Ren(n1, n2, i1));
        } else {
            self.dir_op(p2, DirOp::Set(n2, i1));
            self.dir_op(p1, DirOp::Del(n1));
            if let Some(Node::Dir(d)) = self.inodes.get_mut(&i1) {
                d.parent = p2;
            }
        }
        self.touch(&norm1, true);
        self.touch(&norm2, true);
        Ok(())
    }

    pub fn link(&mut self, b1: u64, from: &str, b2: u64, to: &str) -> Result<(), i32> {
        let (_, _, i1, _) = self.resolve(b1, from)?;
        let i1 = i1.ok_or(libc::ENOENT)?;
        let (p2, n2, i2, norm2) = self.resolve(b2, to)?;
        if i2.is_some() {
            return Err(libc::EEXIST);
        }
        if matches!(self.inodes[&i1], Node::Dir(_)) {
            return Err(libc::EPERM);
        }
        self.dir_op(p2, DirOp::Set(n2, i1));
        self.touch(&norm2, true);
        Ok(())
    }

    /// Drops open files and applies the crash. `power` also loses un-synced data.
    pub fn crash(&mut self, power: bool, rng: &mut Rng, log: &mut Vec<String>) {
        self.fds.clear();
        self.flocks.clear();
        if power {
            // Each run of this function uses one overall policy so that extreme
            // outcomes (nothing kept, everything kept) are common.
            let policy = rng.below(4);
            for (ino, node) in self.inodes.iter_mut() {
                match node {
                    Node::File(f) if !f.pend.is_empty() => {
                        let mut img = f.dur.clone();
                        let n = f.pend.len();
                        let keep: Vec<bool> = match policy {
                            0 => vec![false; n],
                            1 => {
                                let k = rng.below(n as u64 + 1) as usize;
                                (0..n).map(|i| i < k).collect()
                            }
                            _ => (0..n).map(|_| rng.chance(1, 2)).collect(),
                        };
                        let last_kept = keep.iter().rposition(|k| *k);
                        let torn = policy == 3 || rng.chance(1, 3);
                        for (i, p) in f.pend.iter().enumerate() {
                            if !keep[i] {
                                continue;
                            }
                            match p {
                                Pend::Write { off, data }
                                    if Some(i) == last_kept && torn && data.len() > 1 =>
                                {
                                    let mut k = rng.below(data.len() as u64) as usize;
                                    if rng.chance(1, 2) {
                                        k -= k % 512;
                                    }
                                    // The file may have grown before the data arrived.
                                    if rng.chance(1, 3) && img.len() < off + data.len() {
                                        img.resize(off + data.len(), 0);
                                    }
                                    apply(
                                        &mut img,
                                        &Pend::Write {
                                            off: *off,
                                            data: data[..k].to_vec(),
                                        },
                                    );
                                }
                                p => apply(&mut img, p),
                            }
                        }
                        let kept = keep.iter().filter(|k| **k).count();
                        log.push(format!("inode {ino}: kept {kept} of {n} un-synced writes"));
                        f.cur = img.clone();
                        f.dur = img;
                        f.pend.clear();
                    }
                    Node::Dir(d) if !d.pend.is_empty() => {
                        let n = d.pend.len();
                        let k = match policy {
                            0 => 0,
                            _ => rng.below(n as u64 + 1) as usize,
                        };
                        let mut m = d.dur.clone();
                        for op in &d.pend[..k] {
                            apply_dir(&mut m, op);
                        }
                        log.push(format!("dir {ino}: kept {k} of {n} un-synced entry operations"));
                        d.cur = m.clone();
                        d.dur = m;
                        d.pend.clear();
                    }
                    _ => {}
                }
            }
        }
        // A kill leaves the page cache: pending operations stay pending.
        self.gc();
    }

    fn gc(&mut self) {
        let mut live: BTreeSet<u64> = BTreeSet::new();
        let mut stack = vec![1u64];
        while let Some(i) = stack.pop() {
            if !live.insert(i) {
                continue;
            }
            if let Some(Node::Dir(d)) = self.inodes.get(&i) {
                stack.extend(d.cur.values().copied());
                stack.extend(d.dur.values().copied());
                for op in &d.pend {
                    if let DirOp::Set(_, i) | DirOp::Ren(_, _, i) = op {
                        stack.push(*i);
                    }
                }
            }
        }
        self.inodes.retain(|i, _| live.contains(i));
    }

    /// All files below `dir` (current content), keyed by path relative to it.
    pub fn dump(&self, dir: &str) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        if let Some(ino) = self.lookup(dir) {
            self.dump_into(ino, String::new(), &mut out);
        }
        out
    }

    fn dump_into(&self, ino: u64, prefix: String, out: &mut BTreeMap<String, Vec<u8>>) {
        match &self.inodes[&ino] {
            Node::File(f) => {
                out.insert(prefix, f.cur.clone());
            }
            Node::Dir(d) => {
                for (n, i) in &d.cur {
                    let p = if prefix.is_empty() {
                        n.clone()
                    } else {
                        format!("{prefix}/{n}")
                    };
                    self.dump_into(*i, p, out);
                }
            }
            _ => {}
        }
    }

    pub fn dirty(&self) -> usize {
        self.inodes
            .values()
            .map(|n| match n {
                Node::File(f) => f.pend.len(),
                Node::Dir(d) => d.pend.len(),
                _ => 0,
            })
            .sum()
    }
}
