#![allow(unused_variables)]
//! The simulated disk: files with a volatile (page cache) and a durable content,
//! directory operations that become durable only with a directory fsync (or by luck, in
//! order), fault injection, and the two kinds of crash.
use crate::rng::Rng;
use crate::sched;
use std::collections::BTreeMap;

pub type Ino = usize;
pub const FD_BASE: i32 = 1_000_000;

#[derive(Clone, Debug)]
pub enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub dir: bool,
    pub mode: u32,
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pend: Vec<Pend>,
    pub entries: BTreeMap<String, Ino>,
    pub dentries: BTreeMap<String, Ino>,
    pub nlink: u32,
    pub mtime: i128,
    pub lock: i32,
    /// For watched files: per byte how often it was written, the first and the last value.
    pub wrote: Vec<(u32, u8, u8)>,
}
/// A removed file of a watched directory.
#[derive(Clone, Debug)]
pub struct Removed {
    pub path: String,
    pub wrote: Vec<(u32, u8, u8)>,
}
#[derive(Clone, Debug)]
pub enum DirOp {
    Link(Ino, String, Ino),
    Unlink(Ino, String),
    Rename(Ino, String, Ino, String, Ino),
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub ino: Ino,
    pub pos: usize,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub open: bool,
    pub path: String,
    pub dirlist: Option<Vec<String>>,
    /// The task that opened it.
    pub owner: usize,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fault {
    /// Class of call: open read write fsync rename unlink mkdir stat chmod trunc readdir any
    pub cls: String,
    /// The n-th call of that class since faults were armed (from 0).
    pub nth: u64,
    /// EIO ENOSPC EINTR EACCES EMFILE EDQUOT EROFS short corrupt amb (ambiguous: done but EIO is returned)
    pub err: String,
    /// For how many calls it lasts.
    pub count: u64,
}
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub fds: Vec<Fd>,
    pub pending: Vec<DirOp>,
    pub faults: Vec<Fault>,
    pub armed: bool,
    pub counts: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub io_index: u64,
    /// Crash right before the call with this index.
    pub crash_at_io: u64,
    /// Tasks that are processes of their own and get killed: (task, calls left).
    pub kill: Vec<(usize, u64)>,
    /// Bytes left on the disk (None: unlimited).
    pub quota: Option<u64>,
    pub needles: Vec<(String, Vec<u8>)>,
    pub leaks: Vec<String>,
    /// Latency of one I/O call: mean in virtual ns (0: none), drawn per call.
    pub latency: u64,
    pub rng: Rng,
    /// Every I/O call is a scheduling point; with this, also enforce permission bits.
    pub perms: bool,
    pub io_log: Vec<String>,
    /// files created during the run by path
    pub fd_limit: usize,
    /// Directory (as part of the path) whose files are watched, what was removed from it, and
    /// files that held data while others could read them.
    pub watch: Option<String>,
    pub removed: Vec<Removed>,
    pub exposed: Vec<String>,
    /// (class, path) of the calls that faults hit.
    pub hits: Vec<(String, String)>,
}

static mut VFS: Option<Vfs> = None;
#[allow(static_mut_refs)]
pub fn v() -> &'static mut Vfs {
    unsafe { VFS.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
pub fn installed() -> bool {
    unsafe { VFS.is_some() }
}
type R<T> = Result<T, i32>;

fn inode(dir: bool, mode: u32) -> Inode {
    Inode {
        dir,
        mode,
        data: vec![],
        durable: vec![],
        pend: vec![],
        entries: BTreeMap::new(),
        dentries: BTreeMap::new(),
        nlink: 1,
        mtime: 0,
        lock: 0,
        wrote: vec![],
    }
}

pub fn init(seed: u64) {
    let v = Vfs {
        inodes: vec![inode(true, 0o755)],
        fds: vec![],
        pending: vec![],
        faults: vec![],
        armed: false,
        counts: BTreeMap::new(),
        fired: BTreeMap::new(),
        io_index: 0,
        crash_at_io: u64::MAX,
        kill: vec![],
        quota: None,
        needles: vec![],
        leaks: vec![],
        latency: 0,
        rng: Rng::new(seed ^ 0xd15c),
        perms: true,
        io_log: vec![],
        fd_limit: 1024,
        watch: None,
        removed: vec![],
        exposed: vec![],
        hits: vec![],
    };
    unsafe { VFS = Some(v) };
}

pub fn split(path: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                o.pop();
            }
            x => o.push(x.to_string()),
        }
    }
    o
}

pub fn err_code(s: &str) -> i32 {
    match s {
        "EIO" | "amb" => libc::EIO,
        "ENOSPC" => libc::ENOSPC,
        "EINTR" => libc::EINTR,
        "EACCES" => libc::EACCES,
        "EMFILE" => libc::EMFILE,
        "EDQUOT" => libc::EDQUOT,
        "EROFS" => libc::EROFS,
        "ENOENT" => libc::ENOENT,
        "ENOMEM" => libc::ENOMEM,
        "EPERM" => libc::EPERM,
        _ => libc::EIO,
    }
}

/// Start of an I/O call: scheduling point, latency, crash trigger and fault decision.
/// Ok(None): go on; Ok(Some(kind)): go on, but misbehave; Err: fail with errno.
pub fn enter(cls: &str, what: &str) -> R<Option<String>> {
    if !sched::in_task() {
        return Ok(None);
    }
    if !sched::is_inert() {
        sched::point();
        if v().latency > 0 {
            let l = { let lat = v().latency; v().rng.below(lat * 2) };
            sched::sleep_ns(l);
        }
    } else {
        return Ok(None);
    }
    let this = v();
    let idx = this.io_index;
    this.io_index += 1;
    {
        let h = &mut sched::s().hash;
        sched::fnv_str(h, cls);
        sched::fnv(h, sched::me() as u64);
    }
    sched::event(|| format!("io#{idx} {cls} {what}"));
    if idx >= this.crash_at_io {
        this.crash_at_io = u64::MAX;
        this.bump("crash");
        sched::finish(sched::PhaseEnd::Crashed);
    }
    if let Some(i) = this.kill.iter().position(|k| k.0 == sched::me()) {
        if this.kill[i].1 == 0 {
            this.kill.remove(i);
            this.bump("kill:one");
            sched::event(|| "   killed".into());
            for f in this.fds.iter_mut().filter(|f| f.open && f.owner == sched::me()) {
                f.open = false;
                this.inodes[f.ino].lock = 0;
            }
            sched::die();
        }
        this.kill[i].1 -= 1;
    }
    if !this.armed {
        return Ok(None);
    }
    let n = *this.counts.get(cls).unwrap_or(&0);
    let any = *this.counts.get("any").unwrap_or(&0);
    *this.counts.entry(cls.to_string()).or_insert(0) += 1;
    *this.counts.entry("any".to_string()).or_insert(0) += 1;
    let mut hit = None;
    for f in &this.faults {
        let k = if f.cls == "any" { any } else { n };
        if (f.cls == cls || f.cls == "any") && k >= f.nth && k < f.nth + f.count.max(1) {
            hit = Some(f.err.clone());
            break;
        }
    }
    if let Some(e) = hit {
        this.bump(&format!("{cls}:{e}"));
        this.hits.push((cls.to_string(), what.to_string()));
        sched::event(|| format!("   fault {cls} {e}"));
        match e.as_str() {
            "short" | "amb" | "corrupt" | "slow" | "lost" => return Ok(Some(e)),
            _ => return Err(err_code(&e)),
        }
    }
    Ok(None)
}

/// Fault decision for a request for random bytes: Some(0): fewer bytes, Some(errno): it fails.
pub fn rand_fault() -> Option<i32> {
    let this = v();
    if !sched::in_task() || !this.armed {
        return None;
    }
    let n = *this.counts.get("rand").unwrap_or(&0);
    *this.counts.entry("rand".to_string()).or_insert(0) += 1;
    let e = this.faults.iter().find(|f| f.cls == "rand" && n >= f.nth && n < f.nth + f.count.max(1))?.err.clone();
    this.bump(&format!("rand:{e}"));
    sched::event(|| format!("   fault rand {e}"));
    Some(if e == "short" { 0 } else { err_code(&e) })
}

pub type K = Option<String>;
pub fn fd_path(fd: i32) -> String {
    v().fd(fd).map(|f| f.path.clone()).unwrap_or_default()
}

impl Vfs {
    fn dir_of(&self, comps: &[String]) -> R<Ino> {
        let mut d = 0;
        for c in comps {
            let n = &self.inodes[d];
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            if self.perms && n.mode & 0o100 == 0 {
                return Err(libc::EACCES);
            }
            d = *n.entries.get(c).ok_or(libc::ENOENT)?;
        }
        if self.inodes[d].dir {
            Ok(d)
        } else {
            Err(libc::ENOTDIR)
        }
    }
    pub fn lookup(&self, path: &str) -> R<Ino> {
        let comps = split(path);
        if comps.is_empty() {
            return Ok(0);
        }
        let d = self.dir_of(&comps[..comps.len() - 1])?;
        self.inodes[d].entries.get(&comps[comps.len() - 1]).copied().ok_or(libc::ENOENT)
    }
    fn parent(&self, path: &str) -> R<(Ino, String)> {
        let mut comps = split(path);
        let name = comps.pop().ok_or(libc::EEXIST)?;
        if name.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        let d = self.dir_of(&comps)?;
        Ok((d, name))
    }
    pub fn bump(&mut self, k: &str) {
        *self.fired.entry(k.to_string()).or_insert(0) += 1;
    }
    fn alloc_fd(&mut self, fd: Fd) -> R<i32> {
        for (i, f) in self.fds.iter_mut().enumerate() {
            if !f.open {
                *f = fd;
                return Ok(FD_BASE + i as i32);
            }
        }
        self.fds.push(fd);
        Ok(FD_BASE + self.fds.len() as i32 - 1)
    }
    pub fn fd(&mut self, fd: i32) -> R<&mut Fd> {
        let i = (fd - FD_BASE) as usize;
        match self.fds.get_mut(i) {
            Some(f) if f.open => Ok(f),
            _ => Err(libc::EBADF),
        }
    }
    pub fn open(&mut self, k: K, path: &str, flags: i32, mode: u32) -> R<i32> {
        // the kernel reserves the descriptor first
        if self.fds.iter().filter(|f| f.open).count() >= self.fd_limit {
            self.bump("open:EMFILE(limit)");
            self.hits.push(("open".into(), path.to_string()));
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let (rd, wr) = match acc {
            libc::O_RDONLY => (true, false),
            libc::O_WRONLY => (false, true),
            _ => (true, true),
        };
        let ino = match self.lookup(path) {
            Ok(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                let n = &self.inodes[i];
                if n.dir && wr {
                    return Err(libc::EISDIR);
                }
                if !n.dir && flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if self.perms && sched::in_task() && ((rd && n.mode & 0o400 == 0) || (wr && n.mode & 0o200 == 0)) {
                    return Err(libc::EACCES);
                }
                i
            }
            Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
                let (d, name) = self.parent(path)?;
                if self.perms && sched::in_task() && self.inodes[d].mode & 0o200 == 0 {
                    return Err(libc::EACCES);
                }
                let i = self.inodes.len();
                self.inodes.push(inode(false, mode & 0o777 & !0o022));
                self.inodes[d].entries.insert(name.clone(), i);
                self.pending.push(DirOp::Link(d, name, i));
                i
            }
            Err(e) => return Err(e),
        };
        if flags & libc::O_TRUNC != 0 && wr && !self.inodes[ino].dir {
            self.set_len(ino, 0);
        }
        if k.as_deref() == Some("amb") {
            return Err(libc::EIO);
        }
        self.alloc_fd(Fd {
            ino,
            pos: 0,
            read: rd,
            write: wr,
            append: flags & libc::O_APPEND != 0,
            open: true,
            path: path.to_string(),
            dirlist: None,
            owner: sched::me(),
        })
    }
    fn set_len(&mut self, ino: Ino, len: usize) {
        let n = &mut self.inodes[ino];
        if n.data.len() != len {
            n.data.resize(len, 0);
            n.pend.push(Pend::Trunc(len));
        }
    }
    pub fn close(&mut self, fd: i32) -> R<()> {
        let ino = self.fd(fd)?.ino;
        self.fd(fd)?.open = false;
        self.inodes[ino].lock = 0;
        Ok(())
    }
    pub fn read(&mut self, k: K, fd: i32, buf: &mut [u8], at: Option<usize>) -> R<usize> {
        let f = self.fd(fd)?;
        if !f.read {
            return Err(libc::EBADF);
        }
        let pos = at.unwrap_or(f.pos);
        let ino = f.ino;
        let n = &self.inodes[ino];
        if n.dir {
            return Err(libc::EISDIR);
        }
        let avail = n.data.len().saturating_sub(pos);
        let mut l = avail.min(buf.len());
        if k.as_deref() == Some("short") && l > 1 {
            l = 1 + self.rng.below(l as u64 - 1) as usize;
        }
        // (the file may have been truncated below the position)
        if l > 0 {
            buf[..l].copy_from_slice(&self.inodes[ino].data[pos..pos + l]);
        }
        if k.as_deref() == Some("corrupt") && l > 0 {
            let b = self.rng.below(l as u64) as usize;
            buf[b] ^= 1 << self.rng.below(8);
        }
        if at.is_none() {
            self.fd(fd)?.pos = pos + l;
        }
        Ok(l)
    }
    pub fn write(&mut self, k: K, fd: i32, buf: &[u8], at: Option<usize>) -> R<usize> {
        let path = self.fd(fd)?.path.clone();
        let f = self.fd(fd)?;
        if !f.write {
            return Err(libc::EBADF);
        }
        let (ino, app) = (f.ino, f.append);
        let mut pos = at.unwrap_or(f.pos);
        if app {
            pos = self.inodes[ino].data.len();
        }
        let mut l = buf.len();
        if k.as_deref() == Some("short") && l > 1 {
            l = 1 + self.rng.below(l as u64 - 1) as usize;
        }
        if k.as_deref() == Some("amb") && l > 1 {
            // a torn write: part of it reaches the file, and an error is returned
            l = self.rng.below(l as u64) as usize;
        }
        if let Some(q) = self.quota {
            let grow = (pos + l).saturating_sub(self.inodes[ino].data.len()) as u64;
            if grow > q {
                let room = l - (grow - q) as usize;
                self.bump("quota:ENOSPC");
                if room == 0 {
                    return Err(libc::ENOSPC);
                }
                l = room;
                self.quota = Some(0);
            } else {
                self.quota = Some(q - grow);
            }
        }
        let mut bytes = buf[..l].to_vec();
        if k.as_deref() == Some("corrupt") && l > 0 {
            let b = self.rng.below(l as u64) as usize;
            bytes[b] ^= 1 << self.rng.below(8);
        }
        let n = &mut self.inodes[ino];
        if n.data.len() < pos + l {
            n.data.resize(pos + l, 0);
        }
        n.data[pos..pos + l].copy_from_slice(&bytes);
        n.pend.push(Pend::Write(pos, bytes));
        n.mtime = sched::wall_ns();
        if at.is_none() {
            self.fd(fd)?.pos = pos + l;
        }
        self.scan(ino, &path);
        if self.watched(&path) {
            let n = &mut self.inodes[ino];
            if n.wrote.len() < pos + l {
                n.wrote.resize(pos + l, (0, 0, 0));
            }
            for (i, b) in n.data[pos..pos + l].iter().enumerate() {
                let w = &mut n.wrote[pos + i];
                *w = (w.0 + 1, if w.0 == 0 { *b } else { w.1 }, *b);
            }
            self.expose(ino, &path);
        }
        if k.as_deref() == Some("amb") {
            return Err(libc::EIO);
        }
        Ok(l)
    }
    pub fn watched(&self, path: &str) -> bool {
        self.watch.as_ref().map(|w| path.contains(w.as_str())).unwrap_or(false)
    }
    fn expose(&mut self, ino: Ino, path: &str) {
        let n = &self.inodes[ino];
        if n.mode & 0o077 != 0 && n.data.iter().any(|b| *b != 0) {
            let m = format!("{path} holds data with mode {:o}", n.mode);
            if self.exposed.len() < 4 {
                self.exposed.push(m);
            }
        }
    }
    fn scan(&mut self, ino: Ino, path: &str) {
        for (name, nd) in &self.needles {
            if find(&self.inodes[ino].data, nd) {
                let m = format!("{name} in {path}");
                if !self.leaks.contains(&m) {
                    self.leaks.push(m);
                }
            }
        }
    }
    pub fn scan_name(&mut self, path: &str) {
        for (name, nd) in &self.needles {
            if find(path.as_bytes(), nd) {
                let m = format!("{name} in file name {path}");
                if !self.leaks.contains(&m) {
                    self.leaks.push(m);
                }
            }
        }
    }
    pub fn fsync(&mut self, k: K, fd: i32) -> R<()> {
        let ino = self.fd(fd)?.ino;
        self.sync_ino(ino);
        if k.is_some() {
            return Err(libc::EIO);
        }
        Ok(())
    }
    /// A failed fsync: dirty pages are marked clean; what had not reached the disk is lost,
    /// though the page cache goes on showing it.
    pub fn fsync_failed(&mut self, fd: i32) {
        if let Ok(f) = self.fd(fd) {
            let ino = f.ino;
            let n = &mut self.inodes[ino];
            if !n.dir {
                let keep = self.rng.below(n.pend.len() as u64 + 1) as usize;
                let p: Vec<Pend> = n.pend.drain(..).collect();
                for w in &p[..keep] {
                    apply(&mut n.durable, w);
                }
            }
        }
    }
    fn sync_ino(&mut self, ino: Ino) {
        if self.inodes[ino].dir {
            let last = self.pending.iter().rposition(|o| match o {
                DirOp::Link(d, _, _) | DirOp::Unlink(d, _) => *d == ino,
                DirOp::Rename(d, _, e, _, _) => *d == ino || *e == ino,
            });
            if let Some(l) = last {
                let ops: Vec<DirOp> = self.pending.drain(..=l).collect();
                for o in ops {
                    self.apply_dirop(&o);
                }
            }
        } else {
            let n = &mut self.inodes[ino];
            for w in n.pend.drain(..) {
                apply(&mut n.durable, &w);
            }
        }
    }
    fn apply_dirop(&mut self, o: &DirOp) {
        match o {
            DirOp::Link(d, n, i) => {
                self.inodes[*d].dentries.insert(n.clone(), *i);
            }
            DirOp::Unlink(d, n) => {
                self.inodes[*d].dentries.remove(n);
            }
            DirOp::Rename(d, n, e, m, i) => {
                self.inodes[*d].dentries.remove(n);
                self.inodes[*e].dentries.insert(m.clone(), *i);
            }
        }
    }
    pub fn ftruncate(&mut self, k: K, fd: i32, len: usize) -> R<()> {
        let f = self.fd(fd)?;
        if !f.write {
            return Err(libc::EINVAL);
        }
        let ino = f.ino;
        self.set_len(ino, len);
        Ok(())
    }
    pub fn truncate(&mut self, k: K, path: &str, len: usize) -> R<()> {
        let ino = self.lookup(path)?;
        self.set_len(ino, len);
        Ok(())
    }
    pub fn lseek(&mut self, fd: i32, off: i64, wh: i32) -> R<i64> {
        let (ino, pos) = {
            let f = self.fd(fd)?;
            (f.ino, f.pos as i64)
        };
        let base = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => pos,
            libc::SEEK_END => self.inodes[ino].data.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        let n = base + off;
        if n < 0 {
            return Err(libc::EINVAL);
        }
        self.fd(fd)?.pos = n as usize;
        Ok(n)
    }
    pub fn rename(&mut self, k: K, a: &str, b: &str) -> R<()> {
        let i = self.lookup(a)?;
        let (d, n) = self.parent(a)?;
        let (e, m) = self.parent(b)?;
        if let Some(t) = self.inodes[e].entries.get(&m).copied() {
            if t == i {
                return Ok(());
            }
            let (td, sd) = (self.inodes[t].dir, self.inodes[i].dir);
            if td && !sd {
                return Err(libc::EISDIR);
            }
            if !td && sd {
                return Err(libc::ENOTDIR);
            }
            if td && !self.inodes[t].entries.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        }
        self.inodes[d].entries.remove(&n);
        self.inodes[e].entries.insert(m.clone(), i);
        self.pending.push(DirOp::Rename(d, n, e, m, i));
        if k.is_some() {
            return Err(libc::EIO);
        }
        Ok(())
    }
    pub fn link(&mut self, k: K, a: &str, b: &str) -> R<()> {
        let i = self.lookup(a)?;
        let (e, m) = self.parent(b)?;
        if self.inodes[e].entries.contains_key(&m) {
            return Err(libc::EEXIST);
        }
        self.inodes[e].entries.insert(m.clone(), i);
        self.pending.push(DirOp::Link(e, m, i));
        Ok(())
    }
    pub fn unlink(&mut self, k: K, p: &str, dir: bool) -> R<()> {
        let i = self.lookup(p)?;
        let (d, n) = self.parent(p)?;
        if self.inodes[i].dir != dir {
            return Err(if dir { libc::ENOTDIR } else { libc::EISDIR });
        }
        if dir && !self.inodes[i].entries.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.inodes[d].entries.remove(&n);
        if self.watched(p) {
            let wrote = self.inodes[i].wrote.clone();
            self.removed.push(Removed { path: p.to_string(), wrote });
        }
        self.pending.push(DirOp::Unlink(d, n));
        if k.is_some() {
            return Err(libc::EIO);
        }
        Ok(())
    }
    pub fn mkdir(&mut self, k: K, p: &str, mode: u32) -> R<()> {
        let (d, n) = self.parent(p)?;
        if self.inodes[d].entries.contains_key(&n) {
            return Err(libc::EEXIST);
        }
        let i = self.inodes.len();
        self.inodes.push(inode(true, mode & 0o777 & !0o022));
        self.inodes[d].entries.insert(n.clone(), i);
        self.pending.push(DirOp::Link(d, n, i));
        if k.is_some() {
            return Err(libc::EIO);
        }
        Ok(())
    }
    pub fn chmod(&mut self, k: K, p: &str, mode: u32) -> R<()> {
        let i = self.lookup(p)?;
        self.inodes[i].mode = mode & 0o777;
        if self.watched(p) {
            self.expose(i, p);
        }
        Ok(())
    }
    pub fn fchmod(&mut self, k: K, fd: i32, mode: u32) -> R<()> {
        let i = self.fd(fd)?.ino;
        self.inodes[i].mode = mode & 0o777;
        let p = self.fd(fd)?.path.clone();
        if self.watched(&p) {
            self.expose(i, &p);
        }
        Ok(())
    }
    pub fn stat(&mut self, k: K, p: &str) -> R<Ino> {
        self.lookup(p)
    }
    pub fn fstat(&mut self, k: K, fd: i32) -> R<Ino> {
        Ok(self.fd(fd)?.ino)
    }
    pub fn list(&mut self, p: &str) -> R<Vec<String>> {
        let i = self.lookup(p)?;
        if !self.inodes[i].dir {
            return Err(libc::ENOTDIR);
        }
        Ok(self.inodes[i].entries.keys().cloned().collect())
    }

    // ----- harness side -----

    /// Everything written so far becomes durable (used after the set-up of a run).
    pub fn sync_everything(&mut self) {
        let ops: Vec<DirOp> = self.pending.drain(..).collect();
        for o in ops {
            self.apply_dirop(&o);
        }
        for i in 0..self.inodes.len() {
            if !self.inodes[i].dir {
                self.sync_ino(i);
            }
        }
    }
    pub fn mkdir_all(&mut self, p: &str) {
        let comps = split(p);
        let mut d = 0;
        for c in comps {
            d = match self.inodes[d].entries.get(&c) {
                Some(i) => *i,
                None => {
                    let i = self.inodes.len();
                    self.inodes.push(inode(true, 0o755));
                    self.inodes[d].entries.insert(c.clone(), i);
                    self.inodes[d].dentries.insert(c, i);
                    i
                }
            };
        }
    }
    /// The content of a file as a process would see it now.
    pub fn peek(&self, p: &str) -> Option<Vec<u8>> {
        let i = self.lookup(p).ok()?;
        if self.inodes[i].dir {
            None
        } else {
            Some(self.inodes[i].data.clone())
        }
    }
    pub fn put(&mut self, p: &str, data: &[u8]) {
        let i = match self.lookup(p) {
            Ok(i) => i,
            Err(_) => {
                let (d, n) = self.parent(p).unwrap();
                let i = self.inodes.len();
                self.inodes.push(inode(false, 0o644));
                self.inodes[d].entries.insert(n.clone(), i);
                self.inodes[d].dentries.insert(n, i);
                i
            }
        };
        self.inodes[i].data = data.to_vec();
        self.inodes[i].durable = data.to_vec();
        self.inodes[i].pend.clear();
    }
    pub fn files(&self) -> Vec<String> {
        let mut o = vec![];
        self.walk(0, "", &mut o);
        o
    }
    fn walk(&self, d: Ino, p: &str, o: &mut Vec<String>) {
        for (n, i) in &self.inodes[d].entries {
            let q = format!("{p}/{n}");
            if self.inodes[*i].dir {
                self.walk(*i, &q, o)
            } else {
                o.push(q)
            }
        }
    }
    /// The process dies; the page cache survives.
    pub fn crash_kill(&mut self) {
        for f in self.fds.iter_mut() {
            f.open = false;
        }
        for n in self.inodes.iter_mut() {
            n.lock = 0;
        }
    }
    /// Power failure: only what was made durable survives, plus whatever the disk happened
    /// to have written already: a prefix of the directory operations, and of each file's
    /// pending writes nothing, everything, a prefix, or any subset with torn sectors.
    pub fn crash_power(&mut self, rng: &mut Rng) {
        self.crash_kill();
        let keep = match rng.below(4) {
            0 => 0,
            1 => self.pending.len(),
            _ => rng.below(self.pending.len() as u64 + 1) as usize,
        };
        let ops: Vec<DirOp> = self.pending.drain(..).collect();
        if keep < ops.len() {
            self.bump("power:lost_dirop");
        }
        for o in &ops[..keep] {
            self.apply_dirop(o);
        }
        for i in 0..self.inodes.len() {
            let n = &mut self.inodes[i];
            if n.dir {
                n.entries = n.dentries.clone();
                continue;
            }
            let pend: Vec<Pend> = n.pend.drain(..).collect();
            let mut lost = 0;
            if !pend.is_empty() {
                let m = rng.below(4);
                let pre = rng.below(pend.len() as u64 + 1) as usize;
                for (k, w) in pend.iter().enumerate() {
                    match m {
                        0 => lost += 1,
                        1 => apply(&mut n.durable, w),
                        2 => {
                            if k < pre {
                                apply(&mut n.durable, w)
                            } else {
                                lost += 1
                            }
                        }
                        _ => match w {
                            Pend::Trunc(_) => {
                                if rng.chance(1, 2) {
                                    apply(&mut n.durable, w)
                                } else {
                                    lost += 1
                                }
                            }
                            Pend::Write(off, b) => {
                                // sector by sector; the size may be updated without the data
                                let mut p = 0;
                                while p < b.len() {
                                    let end = (((off + p) / 512 + 1) * 512 - off).min(b.len());
                                    match rng.below(3) {
                                        0 => apply(&mut n.durable, &Pend::Write(off + p, b[p..end].to_vec())),
                                        1 => {
                                            if n.durable.len() < off + end {
                                                n.durable.resize(off + end, 0)
                                            }
                                            lost += 1;
                                        }
                                        _ => lost += 1,
                                    }
                                    p = end;
                                }
                            }
                        },
                    }
                }
            }
            n.data = n.durable.clone();
            if lost > 0 {
                self.bump("power:lost_write");
            }
        }
    }
}
fn apply(d: &mut Vec<u8>, w: &Pend) {
    match w {
        Pend::Trunc(l) => d.resize(*l, 0),
        Pend::Write(o, b) => {
            if d.len() < o + b.len() {
                d.resize(o + b.len(), 0)
            }
            d[*o..o + b.len()].copy_from_slice(b)
        }
    }
}
pub fn find(h: &[u8], n: &[u8]) -> bool {
    if n.is_empty() || h.len() < n.len() {
        return false;
    }
    let f = n[0];
    let mut i = 0;
    while i + n.len() <= h.len() {
        match h[i..=h.len() - n.len()].iter().position(|b| *b == f) {
            None => return false,
            Some(p) => {
                if &h[i + p..i + p + n.len()] == n {
                    return true;
                }
                i += p + 1;
            }
        }
    }
    false
}

/// Finds which of many byte strings (of at least 4 bytes) occur, in one pass.
pub fn find_all(h: &[u8], needles: &[(String, Vec<u8>)]) -> Vec<usize> {
    if needles.is_empty() || h.len() < 4 {
        return vec![];
    }
    let mut table = vec![0u64; 1024];
    for (_, n) in needles {
        let k = u16::from_le_bytes([n[0], n[1]]) as usize;
        table[k >> 6] |= 1 << (k & 63);
    }
    let mut out = vec![];
    let mut i = 0;
    while i + 4 <= h.len() {
        if h[i] == 0 && i % 8 == 0 && i + 9 <= h.len() && h[i..i + 9] == [0; 9] && table[0] & 1 == 0 {
            i += 8;
            continue;
        }
        let k = u16::from_le_bytes([h[i], h[i + 1]]) as usize;
        if table[k >> 6] >> (k & 63) & 1 != 0 {
            for (j, (_, n)) in needles.iter().enumerate() {
                if h[i..].starts_with(n) && !out.contains(&j) {
                    out.push(j);
                }
            }
        }
        i += 1;
    }
    out
}
