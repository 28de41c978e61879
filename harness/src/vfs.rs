//! A small in-memory file system behind the libc calls that std::fs uses. Kinds, contents and
//! modification times of the nodes may be symbolic. In the native executable the same tree is
//! created on the real file system below a scratch directory and the calls go to the real libc.
use crate::sym;
use std::os::unix::ffi::OsStrExt;

pub const ABSENT: u8 = 0;
pub const FILE: u8 = 1;
pub const DIR: u8 = 2;
pub const LINK: u8 = 3;
pub const FIFO: u8 = 4;

pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EFAULT: i32 = 14;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOSYS: i32 = 38;
pub const ELOOP: i32 = 40;

pub struct Node {
    pub parent: usize,
    pub name: Vec<u8>,
    pub kind: u8,
    pub content: Vec<u8>, // link: target
    pub mtime: i64,
    pub nsec: u32,
    pub stat_err: u8,
    pub open_err: u8,
    pub read_err: u8,
}

pub struct Fd {
    node: usize,
    pos: usize,
}

pub struct Fs {
    pub nodes: Vec<Node>,
    pub fds: Vec<Fd>,
    pub log: Vec<Vec<u8>>,
    pub logging: bool,
    pub root: Vec<u8>,
    /// native: (path, stat error, open error, read error), open faulty descriptors
    pub faults: Vec<(Vec<u8>, u8, u8, u8)>,
    pub badfd: Vec<(i32, u8)>,
    pub created: bool,
    pub enoent_budget: u32,
}

static mut FS: Option<Fs> = None;

#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe {
        if FS.is_none() {
            init();
        }
        FS.as_mut().unwrap()
    }
}
#[allow(static_mut_refs)]
fn fs_opt() -> Option<&'static mut Fs> {
    unsafe { FS.as_mut() }
}

fn init() {
    let root: Vec<u8> = if sym::is_native() { sym::native_scratch().as_bytes().to_vec() } else { b"/r".to_vec() };
    let mk = |parent: usize, name: &[u8]| Node { parent, name: name.to_vec(), kind: DIR, content: vec![], mtime: 1000, nsec: 0, stat_err: 0, open_err: 0, read_err: 0 };
    let f = Fs {
        nodes: vec![mk(0, b""), mk(0, b"r")],
        fds: vec![],
        log: vec![],
        logging: false,
        root,
        faults: vec![],
        badfd: vec![],
        created: false,
        enoent_budget: 0,
    };
    unsafe {
        FS = Some(f);
    }
}

/// absolute path below the root of the scratch tree ("" is the root itself)
pub fn abs(rel: &str) -> String {
    let mut s = String::from_utf8(fs().root.clone()).unwrap();
    if !rel.is_empty() {
        s.push('/');
        s.push_str(rel);
    }
    s
}

fn child(f: &Fs, dir: usize, name: &[u8]) -> Option<usize> {
    let mut i = 1;
    while i < f.nodes.len() {
        let n = &f.nodes[i];
        if n.parent == dir && n.name.len() == name.len() && n.name == name {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// add a node (replacing one of the same path); missing parents become directories
pub fn add(rel: &str, kind: u8, content: &[u8]) -> usize {
    let f = fs();
    let mut cur = 1usize;
    let parts: Vec<&str> = rel.split('/').collect();
    let last = parts.len() - 1;
    for (k, p) in parts.iter().enumerate() {
        let b = p.as_bytes();
        match child(f, cur, b) {
            Some(i) => cur = i,
            None => {
                f.nodes.push(Node { parent: cur, name: b.to_vec(), kind: DIR, content: vec![], mtime: 1000, nsec: 0, stat_err: 0, open_err: 0, read_err: 0 });
                cur = f.nodes.len() - 1;
            }
        }
        if k == last {
            f.nodes[cur].kind = kind;
            f.nodes[cur].content = content.to_vec();
        }
    }
    cur
}
/// add one node whose name may be symbolic bytes, directly under an existing directory node
pub fn add_named(parent: usize, name: &[u8], kind: u8, content: &[u8]) -> usize {
    let f = fs();
    f.nodes.push(Node { parent, name: name.to_vec(), kind, content: content.to_vec(), mtime: 1000, nsec: 0, stat_err: 0, open_err: 0, read_err: 0 });
    f.nodes.len() - 1
}
pub fn file(rel: &str, content: &str) -> usize {
    add(rel, FILE, content.as_bytes())
}
pub fn dir(rel: &str) -> usize {
    add(rel, DIR, b"")
}
pub fn link(rel: &str, target: &str) -> usize {
    add(rel, LINK, target.as_bytes())
}
pub fn maybe(rel: &str, kinds: &[u8], content: &str) -> usize {
    let k = sym::one_of(rel, kinds);
    add(rel, k, content.as_bytes())
}

pub fn node_path(f: &Fs, n: usize) -> Vec<u8> {
    if n == 0 {
        return b"/".to_vec();
    }
    let mut parts: Vec<usize> = vec![];
    let mut k = n;
    while k != 0 {
        parts.push(k);
        k = f.nodes[k].parent;
    }
    let mut out = vec![];
    while let Some(i) = parts.pop() {
        out.push(b'/');
        out.extend_from_slice(&f.nodes[i].name);
    }
    out
}

fn native_path(f: &Fs, n: usize) -> Vec<u8> {
    // node 1 is the scratch root
    if n <= 1 {
        return f.root.clone();
    }
    let mut p = native_path(f, f.nodes[n].parent);
    p.push(b'/');
    p.extend_from_slice(&f.nodes[n].name);
    p
}

fn os(b: &[u8]) -> &std::path::Path {
    std::path::Path::new(std::ffi::OsStr::from_bytes(b))
}

/// the tree is complete: create it when running natively
pub fn commit() {
    if !sym::is_native() {
        return;
    }
    let f = fs();
    f.created = true;
    for i in 2..f.nodes.len() {
        native_put(f, i);
    }
    // modification times last
    for i in 2..f.nodes.len() {
        native_mtime(f, i);
    }
}
fn native_real(f: &Fs, n: usize) -> bool {
    // every ancestor is a directory
    let mut k = f.nodes[n].parent;
    while k > 1 {
        if f.nodes[k].kind != DIR {
            return false;
        }
        k = f.nodes[k].parent;
    }
    // an earlier node of the same name shadows this one
    for j in 1..n {
        if f.nodes[j].parent == f.nodes[n].parent && f.nodes[j].name == f.nodes[n].name && f.nodes[j].kind != ABSENT {
            return false;
        }
    }
    true
}
fn native_put(f: &mut Fs, i: usize) {
    if !native_real(f, i) {
        return;
    }
    let p = native_path(f, i);
    let n = &f.nodes[i];
    match n.kind {
        FILE => std::fs::write(os(&p), &n.content).unwrap(),
        DIR => {
            let _ = std::fs::create_dir(os(&p));
        }
        LINK => {
            // absolute targets live below the scratch root
            let t = if n.content.starts_with(b"/r/") || n.content == b"/r" {
                let mut t = f.root.clone();
                t.extend_from_slice(&n.content[2..]);
                t
            } else {
                n.content.clone()
            };
            std::os::unix::fs::symlink(os(&t), os(&p)).unwrap();
        }
        FIFO => {
            let mut c = p.clone();
            c.push(0);
            unsafe {
                mkfifo(c.as_ptr(), 0o644);
            }
        }
        _ => {}
    }
    if n.stat_err != 0 || n.open_err != 0 || n.read_err != 0 {
        let e = (p.clone(), n.stat_err, n.open_err, n.read_err);
        f.faults.push(e);
    }
}
fn native_mtime(f: &mut Fs, i: usize) {
    if f.nodes[i].kind == FILE && native_real(f, i) {
        let p = native_path(f, i);
        let t = std::time::UNIX_EPOCH + std::time::Duration::new(f.nodes[i].mtime as u64, f.nodes[i].nsec);
        let h = std::fs::File::options().write(true).open(os(&p)).unwrap();
        h.set_modified(t).unwrap();
    }
}
/// change a node after commit
pub fn update(i: usize, kind: u8, content: &[u8], mtime: i64) {
    let f = fs();
    if sym::is_native() {
        let p = native_path(f, i);
        let _ = std::fs::remove_file(os(&p));
        let _ = std::fs::remove_dir_all(os(&p));
    }
    f.nodes[i].kind = kind;
    f.nodes[i].content = content.to_vec();
    f.nodes[i].mtime = mtime;
    if sym::is_native() {
        native_put(f, i);
        // children of a directory that (re)appeared
        if kind == DIR {
            for j in i + 1..f.nodes.len() {
                let mut k = f.nodes[j].parent;
                let mut under = false;
                while k > 1 {
                    if k == i {
                        under = true;
                    }
                    k = f.nodes[k].parent;
                }
                if under {
                    native_put(f, j);
                    native_mtime(f, j);
                }
            }
        }
        native_mtime(f, i);
    }
}

// ------------------------------------------------------------------ the model
fn is_dir_node(f: &Fs, n: usize) -> bool {
    f.nodes[n].kind == DIR
}

pub fn walk(f: &Fs, path: &[u8], follow: bool) -> Result<usize, i32> {
    if path.is_empty() {
        return Err(ENOENT);
    }
    if path.len() >= 4096 {
        return Err(ENAMETOOLONG);
    }
    let mut pending: Vec<u8> = path.to_vec();
    let mut cur = 0usize;
    if pending[0] != b'/' {
        cur = 1; // relative paths start at the scratch root
    }
    let mut links = 0;
    let mut i = 0usize;
    loop {
        // skip slashes
        let start0 = i;
        while i < pending.len() && pending[i] == b'/' {
            i += 1;
        }
        if i >= pending.len() {
            // a trailing slash asks for a directory
            if start0 < i && !is_dir_node(f, cur) {
                return Err(ENOTDIR);
            }
            return Ok(cur);
        }
        if !is_dir_node(f, cur) {
            return Err(ENOTDIR);
        }
        if f.nodes[cur].stat_err == EACCES as u8 {
            return Err(EACCES);
        }
        let s = i;
        while i < pending.len() && pending[i] != b'/' {
            i += 1;
        }
        let len = i - s;
        if len == 1 && pending[s] == b'.' {
            continue;
        }
        if len == 2 && pending[s] == b'.' && pending[s + 1] == b'.' {
            cur = f.nodes[cur].parent;
            continue;
        }
        if len > 255 {
            return Err(ENAMETOOLONG);
        }
        // look for the component
        let mut found = 0usize;
        {
            let name = &pending[s..i];
            let mut k = 1;
            while k < f.nodes.len() {
                let n = &f.nodes[k];
                if n.parent == cur && n.name.len() == len && n.name.as_slice() == name && n.kind != ABSENT {
                    found = k;
                    break;
                }
                k += 1;
            }
        }
        if found == 0 {
            return Err(ENOENT);
        }
        if f.nodes[found].kind == LINK && (follow || i < pending.len()) {
            links += 1;
            if links > 40 {
                return Err(ELOOP);
            }
            let mut p = f.nodes[found].content.clone();
            p.extend_from_slice(&pending[i..]);
            if p[0] == b'/' {
                cur = 0;
            }
            pending = p;
            i = 0;
            continue;
        }
        cur = found;
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn malloc(n: usize) -> *mut u8;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    fn mkfifo(p: *const u8, mode: u32) -> i32;
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
unsafe fn cbytes(p: *const u8) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while *p.add(i) != 0 {
        v.push(*p.add(i));
        i += 1;
    }
    v
}
unsafe fn next(name: &[u8]) -> *mut u8 {
    dlsym(usize::MAX as *mut u8, name.as_ptr())
}
fn native_fault(p: &[u8], which: usize) -> u8 {
    if let Some(f) = fs_opt() {
        for x in &f.faults {
            let e = match which {
                0 => x.1,
                1 => x.2,
                _ => x.3,
            };
            if x.0 == p {
                return e;
            }
            // search permission on a directory
            if x.1 == EACCES as u8 && p.len() > x.0.len() && p.starts_with(&x.0) && p[x.0.len()] == b'/' {
                return x.1;
            }
        }
    }
    0
}
/// calls of one kind (0 stat, 1 open, 2 read) on one node fail with `err` from now on (0: no more)
pub fn fail(n: usize, which: usize, err: u8) {
    let f = fs();
    let e = &mut f.nodes[n];
    match which {
        0 => e.stat_err = err,
        1 => e.open_err = err,
        _ => e.read_err = err,
    }
    let e = (e.stat_err, e.open_err, e.read_err);
    let p = native_path(f, n);
    f.faults.retain(|x| x.0 != p);
    f.faults.push((p, e.0, e.1, e.2));
}
/// from now on the `at`-th call fails with `err`, with `all` also every later one
pub fn arm(at: u32, err: u8, all: bool) {
    unsafe {
        ARM = (at as i64, err, all);
        CALLS = 0;
    }
}
/// no failures any more; the number of calls since `arm`
pub fn disarm() -> u32 {
    unsafe {
        ARM.0 = -1;
        CALLS
    }
}
static mut ARM: (i64, u8, bool) = (-1, 0, false);
static mut CALLS: u32 = 0;
fn injected() -> bool {
    unsafe {
        if ARM.0 < 0 {
            return false;
        }
        let n = CALLS as i64;
        CALLS += 1;
        if n == ARM.0 || (ARM.2 && n > ARM.0) {
            set_errno(ARM.1 as i32);
            return true;
        }
        false
    }
}
fn log(p: &[u8]) {
    if let Some(f) = fs_opt() {
        if f.logging {
            f.log.push(p.to_vec());
        }
    }
}
unsafe fn fill_statx(f: &Fs, n: usize, b: *mut u8) {
    std::ptr::write_bytes(b, 0, 256);
    let nd = &f.nodes[n];
    let mode: u16 = match nd.kind {
        DIR => 0o040755,
        LINK => 0o120777,
        FIFO => 0o010644,
        _ => 0o100644,
    };
    *(b as *mut u32) = 0xfff;
    *(b.add(4) as *mut u32) = 4096;
    *(b.add(16) as *mut u32) = 1;
    *(b.add(28) as *mut u16) = mode;
    *(b.add(32) as *mut u64) = n as u64 + 10;
    *(b.add(40) as *mut u64) = nd.content.len() as u64;
    *(b.add(112) as *mut i64) = nd.mtime;
    *(b.add(120) as *mut u32) = nd.nsec;
    *(b.add(64) as *mut i64) = nd.mtime;
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    // (std asks once with no path whether the call exists)
    if !path.is_null() && injected() {
        return -1;
    }
    if sym::is_native() {
        if !path.is_null() && *path != 0 {
            let p = cbytes(path);
            log(&p);
            let e = native_fault(&p, 0);
            if e != 0 {
                set_errno(e as i32);
                return -1;
            }
        }
        let g: unsafe extern "C" fn(i32, *const u8, i32, u32, *mut u8) -> i32 = std::mem::transmute(next(b"statx\0"));
        return g(dirfd, path, flags, mask, buf);
    }
    if path.is_null() || buf.is_null() {
        set_errno(EFAULT);
        return -1;
    }
    let f = fs();
    if *path == 0 {
        // AT_EMPTY_PATH: the descriptor itself
        let k = (dirfd - 100) as usize;
        if k >= f.fds.len() {
            set_errno(EBADF);
            return -1;
        }
        let n = f.fds[k].node;
        fill_statx(f, n, buf);
        return 0;
    }
    let p = cbytes(path);
    log(&p);
    match walk(f, &p, flags & 0x100 == 0) {
        Ok(n) => {
            let e = f.nodes[n].stat_err;
            if e != 0 && f.nodes[n].kind != DIR {
                set_errno(e as i32);
                return -1;
            }
            fill_statx(f, n, buf);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if injected() {
        return -1;
    }
    if sym::is_native() {
        let p = cbytes(path);
        log(&p);
        let e = native_fault(&p, 1);
        if e != 0 {
            set_errno(e as i32);
            return -1;
        }
        let g: unsafe extern "C" fn(*const u8, i32, u32) -> i32 = std::mem::transmute(next(b"open64\0"));
        let fd = g(path, flags, mode);
        let e = native_fault(&p, 2);
        if e != 0 && fd >= 0 {
            fs().badfd.push((fd, e));
        }
        return fd;
    }
    let p = cbytes(path);
    log(&p);
    let f = fs();
    match walk(f, &p, true) {
        Ok(n) => {
            let e = f.nodes[n].open_err;
            if e != 0 {
                set_errno(e as i32);
                return -1;
            }
            f.fds.push(Fd { node: n, pos: 0 });
            100 + f.fds.len() as i32 - 1
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if injected() {
        return -1;
    }
    if sym::is_native() {
        if let Some(f) = fs_opt() {
            if let Some(x) = f.badfd.iter().find(|x| x.0 == fd) {
                set_errno(x.1 as i32);
                return -1;
            }
        }
        let g: unsafe extern "C" fn(i32, *mut u8, usize) -> isize = std::mem::transmute(next(b"read\0"));
        return g(fd, buf, n);
    }
    let f = fs();
    let k = (fd - 100) as usize;
    if k >= f.fds.len() {
        set_errno(EBADF);
        return -1;
    }
    let (node, pos) = (f.fds[k].node, f.fds[k].pos);
    if f.nodes[node].kind == DIR {
        set_errno(EISDIR);
        return -1;
    }
    let e = f.nodes[node].read_err;
    if e != 0 {
        set_errno(e as i32);
        return -1;
    }
    let c = &f.nodes[node].content;
    let m = if n < c.len() - pos { n } else { c.len() - pos };
    std::ptr::copy_nonoverlapping(c.as_ptr().add(pos), buf, m);
    f.fds[k].pos = pos + m;
    m as isize
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if sym::is_native() {
        let g: unsafe extern "C" fn(i32, i64, i32) -> i64 = std::mem::transmute(next(b"lseek64\0"));
        return g(fd, off, whence);
    }
    let f = fs();
    let k = (fd - 100) as usize;
    if k >= f.fds.len() {
        set_errno(EBADF);
        return -1;
    }
    f.fds[k].pos as i64
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sym::is_native() {
        if let Some(f) = fs_opt() {
            f.badfd.retain(|x| x.0 != fd);
        }
        let g: unsafe extern "C" fn(i32) -> i32 = std::mem::transmute(next(b"close\0"));
        return g(fd);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const u8, out: *mut u8) -> *mut u8 {
    if injected() {
        return std::ptr::null_mut();
    }
    if sym::is_native() {
        let p = cbytes(path);
        log(&p);
        let e = native_fault(&p, 0);
        if e != 0 {
            set_errno(e as i32);
            return std::ptr::null_mut();
        }
        let g: unsafe extern "C" fn(*const u8, *mut u8) -> *mut u8 = std::mem::transmute(next(b"realpath\0"));
        return g(path, out);
    }
    let p = cbytes(path);
    log(&p);
    let f = fs();
    match walk(f, &p, true) {
        Ok(n) => {
            let e = f.nodes[n].stat_err;
            if e != 0 {
                set_errno(e as i32);
                return std::ptr::null_mut();
            }
            let r = node_path(f, n);
            let o = if out.is_null() { malloc(r.len() + 1) } else { out };
            std::ptr::copy_nonoverlapping(r.as_ptr(), o, r.len());
            *o.add(r.len()) = 0;
            o
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const u8, buf: *mut u8, n: usize) -> isize {
    if sym::is_native() {
        let g: unsafe extern "C" fn(*const u8, *mut u8, usize) -> isize = std::mem::transmute(next(b"readlink\0"));
        return g(path, buf, n);
    }
    let p = cbytes(path);
    log(&p);
    let f = fs();
    match walk(f, &p, false) {
        Ok(k) => {
            if f.nodes[k].kind != LINK {
                set_errno(EINVAL);
                return -1;
            }
            let c = &f.nodes[k].content;
            let m = if n < c.len() { n } else { c.len() };
            std::ptr::copy_nonoverlapping(c.as_ptr(), buf, m);
            m as isize
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

// ------------------------------------------------------------------ queries for the oracles
fn quiet<T>(g: impl FnOnce() -> T) -> T {
    let old = fs().logging;
    fs().logging = false;
    let r = g();
    fs().logging = old;
    r
}
pub fn kind_of(p: &str) -> u8 {
    if sym::is_native() {
        return quiet(|| match std::fs::metadata(p) {
            Ok(m) if m.is_file() => FILE,
            Ok(m) if m.is_dir() => DIR,
            Ok(_) => FIFO,
            Err(_) => ABSENT,
        });
    }
    let f = fs();
    match walk(f, p.as_bytes(), true) {
        Ok(n) => f.nodes[n].kind,
        Err(_) => ABSENT,
    }
}
pub fn is_file(p: &str) -> bool {
    kind_of(p) == FILE
}
pub fn is_dir(p: &str) -> bool {
    kind_of(p) == DIR
}
pub fn canonical(p: &str) -> Option<String> {
    if sym::is_native() {
        return quiet(|| std::fs::canonicalize(p).ok().map(|x| x.to_str().unwrap().to_string()));
    }
    let f = fs();
    match walk(f, p.as_bytes(), true) {
        Ok(n) => Some(unsafe { String::from_utf8_unchecked(node_path(f, n)) }),
        Err(_) => None,
    }
}
pub fn start_log() {
    fs().log.clear();
    fs().logging = true;
}
pub fn stop_log() -> Vec<Vec<u8>> {
    fs().logging = false;
    std::mem::take(&mut fs().log)
}
/// content of a file for the oracles
pub fn content(p: &str) -> Option<Vec<u8>> {
    if sym::is_native() {
        return quiet(|| std::fs::read(p).ok());
    }
    let f = fs();
    match walk(f, p.as_bytes(), true) {
        Ok(n) if f.nodes[n].kind == FILE => Some(f.nodes[n].content.clone()),
        _ => None,
    }
}
