//! The operating-system seam: libc entry points used by std::fs, SQLite and std's
//! locks, defined here so that the linker binds them to the simulator. A thread that is
//! not in simulation mode passes straight through to the kernel.
#![allow(clippy::all, non_upper_case_globals, unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
use libc::*;
use simcore::disk::{Node, OpenFile, SIM_FD_BASE};
use simcore::sched::{self, in_sim, Outside};
use simcore::with_world;
use simcore::world::{Act, Seam, World};
use std::arch::asm;
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    /// Entropy asked for on this thread is simulated even outside of simulation mode.
    static SIM_ENTROPY: Cell<bool> = const { Cell::new(false) };
}
pub fn set_sim_entropy(v: bool) {
    SIM_ENTROPY.with(|c| c.set(v));
}

#[inline]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r = raw6(n, a, b, c, d, 0, 0);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}
fn simfd(fd: c_int) -> bool {
    fd >= SIM_FD_BASE
}
unsafe fn cstr(p: *const c_char) -> Option<String> {
    CStr::from_ptr(p).to_str().ok().map(|s| s.to_string())
}

/// Class of a path for traces and fault placement.
fn class(path: &str) -> String {
    if let Some(rest) = path.strip_prefix("/simdisk/") {
        let mut top = rest.split('/').next().unwrap_or("");
        if top.strip_prefix("node").is_some_and(|n| n.parse::<u8>().is_ok()) {
            // One of several stores on the disk.
            top = rest.split('/').nth(1).unwrap_or("");
        }
        if top == "search" {
            return if rest.contains("-journal") {
                "journal".into()
            } else if rest.contains("-wal") || rest.contains("-shm") {
                "wal".into()
            } else if rest.contains(".db") {
                "search".into()
            } else {
                "search-dir".into()
            };
        }
        return top.to_string();
    }
    if path == "/simdisk" {
        return "simdisk".into();
    }
    "outside".into()
}
fn is_sqlite(c: &str) -> bool {
    matches!(c, "search" | "journal" | "wal" | "search-dir")
}

fn dirfd_base(w: &World, dirfd: c_int) -> Result<u64, i32> {
    if dirfd == AT_FDCWD {
        return Ok(w.fs.cwd());
    }
    w.fs.fds.get(&dirfd).map(|f| f.ino).ok_or(EBADF)
}
fn full(w: &World, dirfd: c_int, path: &str) -> String {
    if path.starts_with('/') {
        return path.to_string();
    }
    let base = w
        .fs
        .fds
        .get(&dirfd)
        .map(|f| f.path.clone())
        .unwrap_or("/cwd".into());
    format!("{base}/{path}")
}

/// Common body of path operations: yields, takes the fault decision, applies.
fn path_op(
    seam: Seam,
    mutating: bool,
    dirfd: c_int,
    path: *const c_char,
    errs: bool,
    f: impl FnOnce(&mut World, u64, &str) -> Result<i32, i32>,
) -> c_int {
    let _o = Outside::enter();
    let Some(path) = (unsafe { cstr(path) }) else {
        return fail(EINVAL);
    };
    sched::yield_point();
    let r = with_world(|w| {
        let fp = full(w, dirfd, &path);
        let c = class(&fp);
        let errs = errs && !(is_sqlite(&c) && matches!(seam, Seam::Stat | Seam::Mkdir))
            && !(c == "search" && matches!(seam, Seam::Open))
            && !(c == "search-dir");
        let base = dirfd_base(w, dirfd)?;
        match w.seam(seam, mutating, &c, errs, &fp) {
            Act::Fail(e) => Err(e),
            Act::Torn => {
                w.freeze();
                Err(EIO)
            }
            Act::GoThenFreeze => {
                let r = f(w, base, &path);
                w.freeze();
                r
            }
            Act::Go | Act::Short => f(w, base, &path),
        }
    });
    match r {
        Ok(v) => v,
        Err(e) => fail(e),
    }
}

fn sim_open(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let mutating = flags & (O_CREAT | O_TRUNC) != 0;
    path_op(Seam::Open, mutating, dirfd, path, true, |w, base, p| {
        w.fs.open(base, p, flags)
    })
}
fn sim_fd<R>(fd: c_int, f: impl FnOnce(&mut World, OpenFile) -> Result<R, i32>) -> Result<R, i32> {
    let _o = Outside::enter();
    with_world(|w| {
        let of = w.fs.fds.get(&fd).cloned().ok_or(EBADF)?;
        f(w, of)
    })
}
fn sim_read(fd: c_int, buf: *mut u8, n: usize, off: Option<usize>) -> ssize_t {
    {
        let _o = Outside::enter();
        sched::yield_point();
    }
    let r = sim_fd(fd, |w, of| {
        let c = class(&of.path);
        if matches!(w.fs.inodes.get(&of.ino), Some(Node::Urandom)) {
            let out = unsafe { std::slice::from_raw_parts_mut(buf, n) };
            for b in out.iter_mut() {
                *b = w.entropy.next() as u8;
            }
            return Ok(n);
        }
        let pos = off.unwrap_or(of.pos);
        match w.seam(Seam::Read, false, &c, true, &format!("{}@{pos}+{n}", of.path)) {
            Act::Fail(e) => return Err(e),
            Act::Torn | Act::GoThenFreeze => {
                w.freeze();
                return Err(EIO);
            }
            _ => {}
        }
        let k = match w.fs.inodes.get(&of.ino) {
            Some(Node::File(f)) => {
                if !of.read {
                    return Err(EBADF);
                }
                let k = f.cur.len().saturating_sub(pos).min(n);
                if k > 0 {
                    unsafe { std::ptr::copy_nonoverlapping(f.cur[pos..].as_ptr(), buf, k) };
                }
                k
            }
            Some(Node::Dir(_)) => return Err(EISDIR),
            _ => 0,
        };
        if off.is_none() {
            w.fs.fds.get_mut(&fd).unwrap().pos = pos + k;
        }
        Ok(k)
    });
    match r {
        Ok(k) => k as ssize_t,
        Err(e) => fail(e) as ssize_t,
    }
}
fn sim_write(fd: c_int, buf: *const u8, n: usize, off: Option<usize>) -> ssize_t {
    {
        let _o = Outside::enter();
        sched::yield_point();
    }
    let r = sim_fd(fd, |w, of| {
        let c = class(&of.path);
        if !of.write {
            return Err(EBADF);
        }
        let mut pos = off.unwrap_or(of.pos);
        if of.append {
            if let Some(Node::File(f)) = w.fs.inodes.get(&of.ino) {
                pos = f.cur.len();
            }
        }
        let data = if n == 0 {
            &[][..]
        } else {
            unsafe { std::slice::from_raw_parts(buf, n) }
        };
        let act = w.seam(Seam::Write, true, &c, true, &format!("{}@{pos}+{n}", of.path));
        let (take, freeze) = match act {
            Act::Fail(e) => return Err(e),
            Act::Torn => (n / 2, true),
            Act::Short => (if n > 1 { n / 2 } else { n }, false),
            Act::GoThenFreeze => (n, true),
            Act::Go => (n, false),
        };
        let p = of.path.clone();
        w.fs.touch(&p, true);
        let k = w.fs.write_at(of.ino, pos, &data[..take])?;
        if off.is_none() {
            w.fs.fds.get_mut(&fd).unwrap().pos = pos + k;
        }
        if freeze {
            w.freeze();
            if act == Act::Torn {
                return Err(EIO);
            }
        }
        Ok(k)
    });
    match r {
        Ok(k) => k as ssize_t,
        Err(e) => fail(e) as ssize_t,
    }
}
fn sim_sync(fd: c_int) -> c_int {
    {
        let _o = Outside::enter();
        sched::yield_point();
    }
    let r = sim_fd(fd, |w, of| {
        let c = class(&of.path);
        match w.seam(Seam::Sync, true, &c, true, &of.path) {
            Act::Fail(e) => Err(e),
            Act::Torn => {
                w.freeze();
                Err(EIO)
            }
            Act::GoThenFreeze => {
                w.fs.sync_file(of.ino);
                w.freeze();
                Ok(())
            }
            _ => {
                w.fs.sync_file(of.ino);
                Ok(())
            }
        }
    });
    match r {
        Ok(()) => 0,
        Err(e) => fail(e),
    }
}
fn sim_ftruncate(fd: c_int, len: off_t) -> c_int {
    {
        let _o = Outside::enter();
        sched::yield_point();
    }
    let r = sim_fd(fd, |w, of| {
        let c = class(&of.path);
        if !of.write {
            return Err(EINVAL);
        }
        match w.seam(Seam::Trunc, true, &c, true, &format!("{}->{len}", of.path)) {
            Act::Fail(e) => Err(e),
            Act::Torn => {
                w.freeze();
                Err(EIO)
            }
            a => {
                w.fs.truncate(of.ino, len as usize);
                if a == Act::GoThenFreeze {
                    w.freeze();
                }
                Ok(())
            }
        }
    });
    match r {
        Ok(()) => 0,
        Err(e) => fail(e),
    }
}

fn fill_stat(w: &World, ino: u64, st: *mut stat64) {
    unsafe {
        std::ptr::write_bytes(st, 0, 1);
        let s = &mut *st;
        s.st_dev = 77;
        s.st_ino = ino + (w.generation << 32);
        s.st_nlink = 1;
        s.st_uid = 0;
        s.st_gid = 0;
        s.st_blksize = 4096;
        match &w.fs.inodes[&ino] {
            Node::File(f) => {
                s.st_mode = S_IFREG | 0o644;
                s.st_size = f.cur.len() as i64;
                s.st_blocks = (f.cur.len() as i64 + 511) / 512;
            }
            Node::Dir(_) => s.st_mode = S_IFDIR | 0o755,
            _ => s.st_mode = S_IFCHR | 0o666,
        }
    }
}
fn sim_stat(dirfd: c_int, path: *const c_char, st: *mut stat64) -> c_int {
    path_op(Seam::Stat, false, dirfd, path, true, |w, base, p| {
        let (_, _, ino, norm) = w.fs.resolve(base, p)?;
        let ino = ino.ok_or(ENOENT)?;
        w.fs.touch(&norm, false);
        fill_stat(w, ino, st);
        Ok(0)
    })
}
fn sim_fstat(fd: c_int, st: *mut stat64) -> c_int {
    let r = sim_fd(fd, |w, of| {
        if w.frozen || w.stalled {
            return Err(EIO);
        }
        fill_stat(w, of.ino, st);
        Ok(())
    });
    match r {
        Ok(()) => 0,
        Err(e) => fail(e),
    }
}

macro_rules! hook {
    (fn $name:ident($($a:ident : $t:ty),*) -> $r:ty; sim $cond:expr => $sim:expr; real $real:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if in_sim() && $cond { $sim } else { $real }
        }
    };
}

hook!(fn open(p: *const c_char, fl: c_int, mode: mode_t) -> c_int; sim true => sim_open(AT_FDCWD, p, fl);
    real sys(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64) as c_int);
hook!(fn open64(p: *const c_char, fl: c_int, mode: mode_t) -> c_int; sim true => sim_open(AT_FDCWD, p, fl);
    real sys(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64) as c_int);
hook!(fn openat(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int; sim true => sim_open(d, p, fl);
    real sys(SYS_openat, d as i64, p as i64, fl as i64, mode as i64) as c_int);
hook!(fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int; sim true => sim_open(d, p, fl);
    real sys(SYS_openat, d as i64, p as i64, fl as i64, mode as i64) as c_int);

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        let _o = Outside::enter();
        if simcore::world_active() {
            with_world(|w| {
                if let Some(of) = w.fs.fds.remove(&fd) {
                    if let Some(m) = w.fs.flocks.get_mut(&of.ino) {
                        m.remove(&fd);
                    }
                }
            });
        }
        return 0;
    }
    sys(SYS_close, fd as i64, 0, 0, 0) as c_int
}
hook!(fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t; sim simfd(fd) => sim_read(fd, b as *mut u8, n, None);
    real sys(SYS_read, fd as i64, b as i64, n as i64, 0) as ssize_t);
hook!(fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t; sim simfd(fd) => sim_write(fd, b as *const u8, n, None);
    real sys(SYS_write, fd as i64, b as i64, n as i64, 0) as ssize_t);
hook!(fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t; sim simfd(fd) => sim_read(fd, b as *mut u8, n, Some(o as usize));
    real sys(SYS_pread64, fd as i64, b as i64, n as i64, o) as ssize_t);
hook!(fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t; sim simfd(fd) => sim_write(fd, b as *const u8, n, Some(o as usize));
    real sys(SYS_pwrite64, fd as i64, b as i64, n as i64, o) as ssize_t);
hook!(fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t; sim simfd(fd) => sim_read(fd, b as *mut u8, n, Some(o as usize));
    real sys(SYS_pread64, fd as i64, b as i64, n as i64, o) as ssize_t);
hook!(fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t; sim simfd(fd) => sim_write(fd, b as *const u8, n, Some(o as usize));
    real sys(SYS_pwrite64, fd as i64, b as i64, n as i64, o) as ssize_t);

unsafe fn vec_io(fd: c_int, v: *const iovec, n: c_int, write: bool) -> ssize_t {
    let mut total = 0;
    for i in 0..n as usize {
        let io = &*v.add(i);
        if io.iov_len == 0 {
            continue;
        }
        let k = if write {
            sim_write(fd, io.iov_base as *const u8, io.iov_len, None)
        } else {
            sim_read(fd, io.iov_base as *mut u8, io.iov_len, None)
        };
        if k < 0 {
            return if total > 0 { total } else { k };
        }
        total += k;
        if (k as usize) < io.iov_len {
            break;
        }
    }
    total
}
hook!(fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t; sim simfd(fd) => vec_io(fd, v, n, false);
    real sys(SYS_readv, fd as i64, v as i64, n as i64, 0) as ssize_t);
hook!(fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t; sim simfd(fd) => vec_io(fd, v, n, true);
    real sys(SYS_writev, fd as i64, v as i64, n as i64, 0) as ssize_t);

unsafe fn sim_lseek(fd: c_int, o: off64_t, wh: c_int) -> off64_t {
    let r = sim_fd(fd, |w, of| {
        let len = match w.fs.inodes.get(&of.ino) {
            Some(Node::File(f)) => f.cur.len() as i64,
            _ => 0,
        };
        let np = match wh {
            SEEK_SET => o,
            SEEK_CUR => of.pos as i64 + o,
            SEEK_END => len + o,
            _ => return Err(EINVAL),
        };
        if np < 0 {
            return Err(EINVAL);
        }
        w.fs.fds.get_mut(&fd).unwrap().pos = np as usize;
        Ok(np)
    });
    match r {
        Ok(v) => v,
        Err(e) => fail(e) as off64_t,
    }
}
hook!(fn lseek(fd: c_int, o: off_t, wh: c_int) -> off_t; sim simfd(fd) => sim_lseek(fd, o, wh);
    real sys(SYS_lseek, fd as i64, o, wh as i64, 0));
hook!(fn lseek64(fd: c_int, o: off64_t, wh: c_int) -> off64_t; sim simfd(fd) => sim_lseek(fd, o, wh);
    real sys(SYS_lseek, fd as i64, o, wh as i64, 0));
hook!(fn fsync(fd: c_int) -> c_int; sim simfd(fd) => sim_sync(fd); real sys(SYS_fsync, fd as i64, 0, 0, 0) as c_int);
hook!(fn fdatasync(fd: c_int) -> c_int; sim simfd(fd) => sim_sync(fd); real sys(SYS_fdatasync, fd as i64, 0, 0, 0) as c_int);
hook!(fn syncfs(fd: c_int) -> c_int; sim simfd(fd) => sim_sync(fd); real sys(SYS_syncfs, fd as i64, 0, 0, 0) as c_int);
hook!(fn sync_file_range(fd: c_int, a: off64_t, b: off64_t, f: c_uint) -> c_int; sim simfd(fd) => 0;
    real sys(SYS_sync_file_range, fd as i64, a, b, f as i64) as c_int);
hook!(fn ftruncate64(fd: c_int, n: off64_t) -> c_int; sim simfd(fd) => sim_ftruncate(fd, n); real sys(SYS_ftruncate, fd as i64, n, 0, 0) as c_int);
hook!(fn ftruncate(fd: c_int, n: off_t) -> c_int; sim simfd(fd) => sim_ftruncate(fd, n); real sys(SYS_ftruncate, fd as i64, n, 0, 0) as c_int);
hook!(fn posix_fallocate(fd: c_int, a: off_t, b: off_t) -> c_int; sim simfd(fd) => EOPNOTSUPP;
    real { let r = raw6(SYS_fallocate, fd as i64, 0, a, b, 0, 0); if r < 0 { -r as c_int } else { 0 } });
hook!(fn fallocate64(fd: c_int, m: c_int, a: off64_t, b: off64_t) -> c_int; sim simfd(fd) => fail(EOPNOTSUPP);
    real sys(SYS_fallocate, fd as i64, m as i64, a, b) as c_int);
hook!(fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int; sim simfd(fd) => 0;
    real { let r = raw6(SYS_fadvise64, fd as i64, a, b, c as i64, 0, 0); -r as c_int });

hook!(fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int; sim true => sim_stat(AT_FDCWD, p, st);
    real sys(SYS_newfstatat, AT_FDCWD as i64, p as i64, st as i64, 0) as c_int);
hook!(fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int; sim true => sim_stat(AT_FDCWD, p, st);
    real sys(SYS_newfstatat, AT_FDCWD as i64, p as i64, st as i64, AT_SYMLINK_NOFOLLOW as i64) as c_int);
hook!(fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int; sim simfd(fd) => sim_fstat(fd, st);
    real sys(SYS_fstat, fd as i64, st as i64, 0, 0) as c_int);
hook!(fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int;
    sim true => if *p == 0 { sim_fstat(d, st) } else { sim_stat(d, p, st) };
    real sys(SYS_newfstatat, d as i64, p as i64, st as i64, fl as i64) as c_int);
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if !in_sim() || (simfd(d) == false && d != AT_FDCWD) {
        let r = raw6(SYS_statx, d as i64, p as i64, fl as i64, mask as i64, out as i64, 0);
        if r < 0 {
            return fail(-r as i32);
        }
        return r as c_int;
    }
    let mut st: libc::stat64 = std::mem::zeroed();
    let r = if p.is_null() || *p == 0 {
        sim_fstat(d, &mut st)
    } else {
        sim_stat(d, p, &mut st)
    };
    if r != 0 {
        return r;
    }
    std::ptr::write_bytes(out, 0, 1);
    let o = &mut *out;
    o.stx_mask = 0x7ff;
    o.stx_blksize = 4096;
    o.stx_nlink = 1;
    o.stx_mode = st.st_mode as u16;
    o.stx_ino = st.st_ino;
    o.stx_size = st.st_size as u64;
    o.stx_blocks = st.st_blocks as u64;
    0
}
hook!(fn access(p: *const c_char, m: c_int) -> c_int;
    sim true => { let mut st: libc::stat64 = std::mem::zeroed(); sim_stat(AT_FDCWD, p, &mut st) };
    real sys(SYS_faccessat, AT_FDCWD as i64, p as i64, m as i64, 0) as c_int);
hook!(fn faccessat(d: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int;
    sim true => { let mut st: libc::stat64 = std::mem::zeroed(); let _ = fl; sim_stat(d, p, &mut st) };
    real sys(SYS_faccessat, d as i64, p as i64, m as i64, 0) as c_int);

fn sim_mkdir(d: c_int, p: *const c_char) -> c_int {
    path_op(Seam::Mkdir, true, d, p, true, |w, b, p| w.fs.mkdir(b, p).map(|_| 0))
}
fn sim_unlink(d: c_int, p: *const c_char, dir: bool) -> c_int {
    path_op(Seam::Unlink, true, d, p, true, |w, b, p| w.fs.unlink(b, p, dir).map(|_| 0))
}
fn sim_rename(d1: c_int, p1: *const c_char, d2: c_int, p2: *const c_char) -> c_int {
    let Some(to) = (unsafe { cstr(p2) }) else {
        return fail(EINVAL);
    };
    path_op(Seam::Rename, true, d1, p1, true, |w, b, p| {
        let b2 = dirfd_base(w, d2)?;
        w.fs.rename(b, p, b2, &to).map(|_| 0)
    })
}
fn sim_link(d1: c_int, p1: *const c_char, d2: c_int, p2: *const c_char) -> c_int {
    let Some(to) = (unsafe { cstr(p2) }) else {
        return fail(EINVAL);
    };
    path_op(Seam::Rename, true, d1, p1, true, |w, b, p| {
        let b2 = dirfd_base(w, d2)?;
        w.fs.link(b, p, b2, &to).map(|_| 0)
    })
}
hook!(fn mkdir(p: *const c_char, m: mode_t) -> c_int; sim true => sim_mkdir(AT_FDCWD, p); real sys(SYS_mkdirat, AT_FDCWD as i64, p as i64, m as i64, 0) as c_int);
hook!(fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int; sim true => sim_mkdir(d, p); real sys(SYS_mkdirat, d as i64, p as i64, m as i64, 0) as c_int);
hook!(fn rmdir(p: *const c_char) -> c_int; sim true => sim_unlink(AT_FDCWD, p, true); real sys(SYS_unlinkat, AT_FDCWD as i64, p as i64, AT_REMOVEDIR as i64, 0) as c_int);
hook!(fn unlink(p: *const c_char) -> c_int; sim true => sim_unlink(AT_FDCWD, p, false); real sys(SYS_unlinkat, AT_FDCWD as i64, p as i64, 0, 0) as c_int);
hook!(fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int; sim true => sim_unlink(d, p, fl & AT_REMOVEDIR != 0); real sys(SYS_unlinkat, d as i64, p as i64, fl as i64, 0) as c_int);
hook!(fn rename(a: *const c_char, b: *const c_char) -> c_int; sim true => sim_rename(AT_FDCWD, a, AT_FDCWD, b); real sys(SYS_renameat, AT_FDCWD as i64, a as i64, AT_FDCWD as i64, b as i64) as c_int);
hook!(fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int; sim true => sim_rename(d1, a, d2, b); real sys(SYS_renameat, d1 as i64, a as i64, d2 as i64, b as i64) as c_int);
hook!(fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_uint) -> c_int; sim true => sim_rename(d1, a, d2, b);
    real { let r = raw6(SYS_renameat2, d1 as i64, a as i64, d2 as i64, b as i64, f as i64, 0); if r < 0 { fail(-r as i32) } else { r as c_int } });
hook!(fn link(a: *const c_char, b: *const c_char) -> c_int; sim true => sim_link(AT_FDCWD, a, AT_FDCWD, b); real { let r = raw6(SYS_linkat, AT_FDCWD as i64, a as i64, AT_FDCWD as i64, b as i64, 0, 0); if r < 0 { fail(-r as i32) } else { r as c_int } });
hook!(fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int; sim true => sim_link(d1, a, d2, b); real { let r = raw6(SYS_linkat, d1 as i64, a as i64, d2 as i64, b as i64, f as i64, 0); if r < 0 { fail(-r as i32) } else { r as c_int } });
hook!(fn symlink(a: *const c_char, b: *const c_char) -> c_int; sim true => fail(EPERM); real sys(SYS_symlink, a as i64, b as i64, 0, 0) as c_int);
hook!(fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t; sim true => fail(EINVAL) as ssize_t; real sys(SYS_readlink, p as i64, b as i64, n as i64, 0) as ssize_t);
hook!(fn chmod(p: *const c_char, m: mode_t) -> c_int; sim true => 0; real sys(SYS_chmod, p as i64, m as i64, 0, 0) as c_int);
hook!(fn fchmod(fd: c_int, m: mode_t) -> c_int; sim simfd(fd) => 0; real sys(SYS_fchmod, fd as i64, m as i64, 0, 0) as c_int);
hook!(fn fchown(fd: c_int, u: uid_t, g: gid_t) -> c_int; sim simfd(fd) => 0; real sys(SYS_fchown, fd as i64, u as i64, g as i64, 0) as c_int);
hook!(fn futimens(fd: c_int, t: *const timespec) -> c_int; sim simfd(fd) => 0; real sys(SYS_utimensat, fd as i64, 0, t as i64, 0) as c_int);
hook!(fn utime(p: *const c_char, t: *const c_void) -> c_int; sim true => 0; real sys(SYS_utime, p as i64, t as i64, 0, 0) as c_int);
hook!(fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char;
    sim !b.is_null() && n > 5 => { std::ptr::copy_nonoverlapping(c"/cwd".as_ptr(), b, 5); b };
    real { if b.is_null() { std::ptr::null_mut() } else { let r = raw6(SYS_getcwd, b as i64, n as i64, 0, 0, 0, 0); if r < 0 { fail(-r as i32); std::ptr::null_mut() } else { b } } });
hook!(fn realpath(p: *const c_char, b: *mut c_char) -> *mut c_char;
    sim true => {
        let _o = Outside::enter();
        let r = cstr(p).and_then(|s| with_world(|w| w.fs.resolve(w.fs.cwd(), &s).ok())).and_then(|r| r.2.map(|_| r.3));
        match r {
            None => { fail(ENOENT); std::ptr::null_mut() }
            Some(s) => {
                let out = if b.is_null() { malloc(s.len() + 1) as *mut c_char } else { b };
                std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, out, s.len());
                *out.add(s.len()) = 0;
                out
            }
        }
    };
    real { let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(&REALPATH, c"realpath")); f(p, b) });

unsafe fn sim_fcntl(fd: c_int, cmd: c_int, arg: *mut c_void) -> c_int {
    match cmd {
        F_GETLK => {
            (*(arg as *mut flock64)).l_type = F_UNLCK as i16;
            0
        }
        F_DUPFD | F_DUPFD_CLOEXEC => {
            let r = sim_fd(fd, |w, of| {
                let n = w.fs.next_fd;
                w.fs.next_fd += 1;
                w.fs.fds.insert(n, of);
                Ok(n)
            });
            r.unwrap_or_else(fail)
        }
        F_GETFL => sim_fd(fd, |_, of| {
            Ok(match (of.read, of.write) {
                (true, true) => O_RDWR,
                (false, true) => O_WRONLY,
                _ => O_RDONLY,
            })
        })
        .unwrap_or_else(fail),
        _ => 0,
    }
}
hook!(fn fcntl(fd: c_int, cmd: c_int, arg: *mut c_void) -> c_int; sim simfd(fd) => sim_fcntl(fd, cmd, arg); real sys(SYS_fcntl, fd as i64, cmd as i64, arg as i64, 0) as c_int);
hook!(fn fcntl64(fd: c_int, cmd: c_int, arg: *mut c_void) -> c_int; sim simfd(fd) => sim_fcntl(fd, cmd, arg); real sys(SYS_fcntl, fd as i64, cmd as i64, arg as i64, 0) as c_int);

/// flock on the simulated disk: exclusive/shared, per open file description.
unsafe fn sim_flock(fd: c_int, op: c_int) -> c_int {
    loop {
        let _o = Outside::enter();
        sched::yield_point();
        let r = sim_fd(fd, |w, of| {
            let m = w.fs.flocks.entry(of.ino).or_default();
            if op & LOCK_UN != 0 {
                m.remove(&fd);
                return Ok(true);
            }
            let ex = op & LOCK_EX != 0;
            let busy = m.iter().any(|(f, e)| *f != fd && (ex || *e));
            if busy {
                return Ok(false);
            }
            m.insert(fd, ex);
            Ok(true)
        });
        match r {
            Err(e) => return fail(e),
            Ok(true) => return 0,
            Ok(false) if op & LOCK_NB != 0 => return fail(EWOULDBLOCK),
            Ok(false) => {
                if !sched::active() {
                    simcore::world::fatal_exit(78, "deadlock: blocking flock on a file locked by the same thread");
                }
                sched::sleep(1_000_000)
            }
        }
    }
}
hook!(fn flock(fd: c_int, op: c_int) -> c_int; sim simfd(fd) => sim_flock(fd, op); real sys(SYS_flock, fd as i64, op as i64, 0, 0) as c_int);
hook!(fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t;
    sim simfd(a) || simfd(c) => fail(ENOSYS) as ssize_t;
    real { let r = raw6(SYS_copy_file_range, a as i64, b as i64, c as i64, d as i64, n as i64, f as i64); if r < 0 { fail(-r as i32) as ssize_t } else { r as ssize_t } });
hook!(fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t;
    sim simfd(a) || simfd(b) => fail(EINVAL) as ssize_t; real sys(SYS_sendfile, a as i64, b as i64, o as i64, n as i64) as ssize_t);
hook!(fn mmap64(a: *mut c_void, n: size_t, p: c_int, fl: c_int, fd: c_int, o: off64_t) -> *mut c_void;
    sim simfd(fd) => {
        // Shared memory of a WAL index: private to the simulated process.
        let m = raw6(SYS_mmap, a as i64, n as i64, (PROT_READ | PROT_WRITE) as i64, (MAP_PRIVATE | MAP_ANONYMOUS) as i64, -1, 0);
        if m > 0 {
            let _ = sim_fd(fd, |w, of| {
                if let Some(Node::File(f)) = w.fs.inodes.get(&of.ino) {
                    let o = o as usize;
                    if o < f.cur.len() {
                        let k = (f.cur.len() - o).min(n);
                        std::ptr::copy_nonoverlapping(f.cur[o..].as_ptr(), m as *mut u8, k);
                    }
                }
                Ok(())
            });
        }
        m as *mut c_void
    };
    real { let r = raw6(SYS_mmap, a as i64, n as i64, p as i64, fl as i64, fd as i64, o); if (-4095..0).contains(&r) { fail(-r as i32); MAP_FAILED } else { r as *mut c_void } });

// ---- directories ----
struct SimDir {
    fd: c_int,
    ent: dirent64,
}
static SIM_DIRS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
fn is_simdir(d: *mut DIR) -> bool {
    let _o = Outside::enter();
    SIM_DIRS.lock().map(|v| v.contains(&(d as usize))).unwrap_or(false)
}
unsafe fn make_simdir(fd: c_int) -> *mut DIR {
    let _o = Outside::enter();
    let b = Box::into_raw(Box::new(SimDir {
        fd,
        ent: std::mem::zeroed(),
    })) as *mut DIR;
    SIM_DIRS.lock().unwrap().push(b as usize);
    b
}
static OPENDIR: AtomicUsize = AtomicUsize::new(0);
static FDOPENDIR: AtomicUsize = AtomicUsize::new(0);
static READDIR: AtomicUsize = AtomicUsize::new(0);
static CLOSEDIR: AtomicUsize = AtomicUsize::new(0);
static DIRFD: AtomicUsize = AtomicUsize::new(0);
static REALPATH: AtomicUsize = AtomicUsize::new(0);
static MLOCK: AtomicUsize = AtomicUsize::new(0);
static MUNLOCK: AtomicUsize = AtomicUsize::new(0);
static MTRYLOCK: AtomicUsize = AtomicUsize::new(0);
unsafe fn next(slot: &AtomicUsize, name: &CStr) -> *const c_void {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v as *const c_void;
    }
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    slot.store(p as usize, Ordering::Relaxed);
    p
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if in_sim() {
        let fd = path_op(Seam::ReadDir, false, AT_FDCWD, p, true, |w, b, p| {
            w.fs.open(b, p, O_RDONLY | O_DIRECTORY)
        });
        return if fd < 0 { std::ptr::null_mut() } else { make_simdir(fd) };
    }
    let f: extern "C" fn(*const c_char) -> *mut DIR = std::mem::transmute(next(&OPENDIR, c"opendir"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if simfd(fd) {
        return make_simdir(fd);
    }
    let f: extern "C" fn(c_int) -> *mut DIR = std::mem::transmute(next(&FDOPENDIR, c"fdopendir"));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if is_simdir(d) {
        let sd = &mut *(d as *mut SimDir);
        let fd = sd.fd;
        let r = sim_fd(fd, |w, of| {
            if w.frozen || w.stalled {
                return Err(EIO);
            }
            if of.dir_list.is_none() {
                let mut v = vec![(".".to_string(), of.ino, true), ("..".to_string(), of.ino, true)];
                if let Some(Node::Dir(dd)) = w.fs.inodes.get(&of.ino) {
                    for (n, i) in &dd.cur {
                        v.push((n.clone(), *i, matches!(w.fs.inodes.get(i), Some(Node::Dir(_)))));
                    }
                }
                w.fs.fds.get_mut(&fd).unwrap().dir_list = Some((v, 0));
            }
            let l = w.fs.fds.get_mut(&fd).unwrap().dir_list.as_mut().unwrap();
            let e = l.0.get(l.1).cloned();
            l.1 += 1;
            Ok(e)
        });
        return match r {
            Err(e) => {
                fail(e);
                std::ptr::null_mut()
            }
            Ok(None) => std::ptr::null_mut(),
            Ok(Some((n, i, isdir))) => {
                sd.ent.d_ino = i;
                sd.ent.d_type = if isdir { DT_DIR } else { DT_REG };
                sd.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
                let b = n.as_bytes();
                for (k, c) in b.iter().take(255).enumerate() {
                    sd.ent.d_name[k] = *c as c_char;
                }
                sd.ent.d_name[b.len().min(255)] = 0;
                &mut sd.ent
            }
        };
    }
    let f: extern "C" fn(*mut DIR) -> *mut dirent64 = std::mem::transmute(next(&READDIR, c"readdir64"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if is_simdir(d) {
        let _o = Outside::enter();
        SIM_DIRS.lock().unwrap().retain(|x| *x != d as usize);
        let b = Box::from_raw(d as *mut SimDir);
        return close(b.fd);
    }
    let f: extern "C" fn(*mut DIR) -> c_int = std::mem::transmute(next(&CLOSEDIR, c"closedir"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if is_simdir(d) {
        return (*(d as *mut SimDir)).fd;
    }
    let f: extern "C" fn(*mut DIR) -> c_int = std::mem::transmute(next(&DIRFD, c"dirfd"));
    f(d)
}

// ---- entropy, time, identity ----
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if (in_sim() || SIM_ENTROPY.try_with(|c| c.get()).unwrap_or(false)) && simcore::world_active() {
        let _o = Outside::enter();
        let out = std::slice::from_raw_parts_mut(b as *mut u8, n);
        with_world(|w| {
            for x in out.iter_mut() {
                *x = w.entropy.next() as u8;
            }
        });
        return n as ssize_t;
    }
    sys(SYS_getrandom, b as i64, n as i64, fl as i64, 0) as ssize_t
}
hook!(fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int;
    sim true => { let n = simcore::world::now_ns(); (*t).tv_sec = (n / 1_000_000_000) as i64; (*t).tv_nsec = (n % 1_000_000_000) as i64; 0 };
    real sys(SYS_clock_gettime, c as i64, t as i64, 0, 0) as c_int);
hook!(fn gettimeofday(t: *mut timeval, z: *mut c_void) -> c_int;
    sim true => { let n = simcore::world::now_ns(); (*t).tv_sec = (n / 1_000_000_000) as i64; (*t).tv_usec = (n % 1_000_000_000 / 1000) as i64; 0 };
    real sys(SYS_gettimeofday, t as i64, z as i64, 0, 0) as c_int);
hook!(fn time(t: *mut time_t) -> time_t;
    sim true => { let n = (simcore::world::now_ns() / 1_000_000_000) as time_t; if !t.is_null() { *t = n; } n };
    real sys(SYS_time, t as i64, 0, 0, 0) as time_t);
hook!(fn getpid() -> pid_t; sim true => 4242; real sys(SYS_getpid, 0, 0, 0, 0) as pid_t);
unsafe fn sim_sleep(t: *const timespec) -> c_int {
    let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    let _o = Outside::enter();
    with_world(|w| {
        w.probe("slept_in_sim_time");
        w.call.over += 1;
        if w.call.over > 200_000 {
            simcore::world::fatal_exit(77, "a call does not end: it keeps sleeping");
        }
    });
    sched::sleep(ns);
    0
}
hook!(fn nanosleep(t: *const timespec, r: *mut timespec) -> c_int; sim true => sim_sleep(t); real sys(SYS_nanosleep, t as i64, r as i64, 0, 0) as c_int);
hook!(fn clock_nanosleep(c: clockid_t, f: c_int, t: *const timespec, r: *mut timespec) -> c_int;
    sim true => {
        if f & TIMER_ABSTIME != 0 {
            let target = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
            let now = simcore::world::now_ns();
            let d = target.saturating_sub(now);
            let ts = timespec { tv_sec: (d / 1_000_000_000) as i64, tv_nsec: (d % 1_000_000_000) as i64 };
            sim_sleep(&ts)
        } else { sim_sleep(t) }
    };
    real { let x = raw6(SYS_clock_nanosleep, c as i64, f as i64, t as i64, r as i64, 0, 0); -x as c_int });
hook!(fn sched_yield() -> c_int; sim true => { let _o = Outside::enter(); sched::yield_point(); 0 }; real sys(SYS_sched_yield, 0, 0, 0, 0) as c_int);

// ---- locks ----
unsafe fn sim_futex(a: i64, op: i64, val: i64, timeout: i64) -> i64 {
    let addr = a as *const u32;
    match op & 0x7f {
        0 | 9 => {
            let _o = Outside::enter();
            if std::ptr::read_volatile(addr) != val as u32 {
                return fail(EAGAIN) as i64;
            }
            if timeout != 0 {
                sched::sleep(1_000_000);
                return fail(ETIMEDOUT) as i64;
            }
            sched::block(addr as usize);
            0
        }
        1 | 10 => {
            let _o = Outside::enter();
            sched::wake(addr as usize, val as usize) as i64
        }
        _ => fail(ENOSYS) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if in_sim() {
        match n {
            SYS_futex => return sim_futex(a, b, c, d),
            SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
            SYS_statx => {
                return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long
            }
            SYS_copy_file_range if simfd(a as c_int) || simfd(c as c_int) => return fail(ENOSYS) as c_long,
            SYS_renameat2 => return sim_rename(a as c_int, b as *const c_char, c as c_int, d as *const c_char) as c_long,
            _ => {}
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        return fail(-r as i32) as c_long;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut pthread_mutex_t) -> c_int {
    if in_sim() && sched::active() {
        let f: extern "C" fn(*mut pthread_mutex_t) -> c_int =
            std::mem::transmute(next(&MTRYLOCK, c"pthread_mutex_trylock"));
        loop {
            let r = f(m);
            if r != EBUSY {
                return r;
            }
            let _o = Outside::enter();
            sched::block(m as usize);
        }
    }
    let f: extern "C" fn(*mut pthread_mutex_t) -> c_int =
        std::mem::transmute(next(&MLOCK, c"pthread_mutex_lock"));
    f(m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut pthread_mutex_t) -> c_int {
    let f: extern "C" fn(*mut pthread_mutex_t) -> c_int =
        std::mem::transmute(next(&MUNLOCK, c"pthread_mutex_unlock"));
    let r = f(m);
    if in_sim() && sched::active() {
        let _o = Outside::enter();
        sched::wake(m as usize, usize::MAX);
    }
    r
}
