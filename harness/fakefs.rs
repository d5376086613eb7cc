// Stand-ins for the files, standard streams and arguments of the program, so that main() runs as a
// whole on files in memory. Each operation on them may fail, and the program may be stopped there.
#![allow(dead_code)]
pub use crate::fakestd::*;
use crate::nd;

pub struct Node {
    pub data: Vec<u8>,
    pub mode: u32,
}
pub struct World {
    pub names: Vec<(String, usize)>,
    pub nodes: Vec<Node>,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub stdin_pos: usize,
    pub stdin_used: usize,
    pub out: Vec<u8>,
    pub pager: Option<String>,
    pub tty: bool,
    pub faults: usize, // operations that may still fail
    pub kills: usize,  // 1: the program may be stopped
    pub short: bool,   // writes may take less than they are given
    pub chunk: usize,  // bytes per read, 0: any
    pub ops: usize,
    pub failed: Option<&'static str>,
    pub task: usize,
    pub code: Option<i32>,
    pub ended: bool,
}
pub static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}
pub fn new_world() {
    let w = World {
        names: vec![],
        nodes: vec![],
        args: vec![],
        stdin: vec![],
        stdin_pos: 0,
        stdin_used: 0,
        out: vec![],
        pager: None,
        tty: false,
        faults: 0,
        kills: 0,
        short: false,
        chunk: 0,
        ops: 0,
        failed: None,
        task: 0,
        code: None,
        ended: false,
    };
    unsafe { WORLD = Some(w) };
}
// ./a is a
fn plain(name: &str) -> &str {
    name.strip_prefix("./").unwrap_or(name)
}
impl World {
    pub fn put(&mut self, name: &str, data: &[u8]) {
        self.nodes.push(Node { data: data.to_vec(), mode: 0o644 });
        self.names.push((name.to_string(), self.nodes.len() - 1));
    }
    pub fn find(&self, name: &str) -> Option<usize> {
        self.names.iter().find(|x| x.0 == plain(name)).map(|x| x.1)
    }
    pub fn get(&self, name: &str) -> Option<&Vec<u8>> {
        self.find(name).map(|k| &self.nodes[k].data)
    }
}
// one operation on files
fn op(what: &'static str) -> ::std::io::Result<()> {
    let w = world();
    w.ops += 1;
    if w.kills > 0 && nd::choice(2) == 1 {
        w.kills -= 1;
        stop(None);
    }
    if w.faults > 0 && nd::choice(2) == 1 {
        w.faults -= 1;
        w.failed = Some(what);
        return Err(::std::io::Error::from(::std::io::ErrorKind::Other));
    }
    Ok(())
}
// the program ends, with an exit code or stopped from outside
pub fn stop(code: Option<i32>) -> ! {
    world().code = code;
    world().ended = true;
    nd::co_switch(0);
    nd::fail("a program that has ended goes on");
}
extern "C" fn body(_: usize) {
    crate::main();
    stop(Some(0));
}
/// the exit code of `nd ARGS`, None if it was stopped
pub fn run(args: &[&str]) -> Option<i32> {
    let w = world();
    w.args = vec!["nd".to_string()];
    for a in args {
        w.args.push(a.to_string());
    }
    w.code = None;
    w.ended = false;
    crate::fakestd::sched::start(0);
    let id = nd::co_new(body, 0);
    crate::fakestd::sched::tasks()[0].id = id;
    nd::co_switch(id);
    nd::check(world().ended, "the program has ended");
    world().code
}
pub fn args() -> Vec<String> {
    world().args.clone()
}
pub fn usage<T>(_: clap::Error) -> T {
    stop(Some(2))
}

pub mod process {
    pub use crate::fakestd::process::*;
    pub fn exit(code: i32) -> ! {
        super::stop(Some(code))
    }
}
pub mod env {
    pub use ::std::env::*;
    pub fn var<K: AsRef<::std::ffi::OsStr>>(k: K) -> Result<String, VarError> {
        if k.as_ref() == ::std::ffi::OsStr::new("PAGER") {
            return super::world().pager.clone().ok_or(VarError::NotPresent);
        }
        Err(VarError::NotPresent)
    }
    pub fn var_os<K: AsRef<::std::ffi::OsStr>>(k: K) -> Option<::std::ffi::OsString> {
        var(k).ok().map(|x| x.into())
    }
}
pub mod io {
    pub use ::std::io::*;
    use super::world;
    pub trait IsTerminal {
        fn is_terminal(&self) -> bool;
    }
    #[derive(Debug)]
    pub struct Stdin(());
    #[derive(Debug)]
    pub struct Stdout(());
    pub type StdoutLock<'a> = Stdout;
    pub type StdinLock<'a> = Stdin;
    #[derive(Debug)]
    pub struct Stderr(());
    pub fn stdin() -> Stdin {
        Stdin(())
    }
    pub fn stdout() -> Stdout {
        Stdout(())
    }
    pub fn stderr() -> Stderr {
        Stderr(())
    }
    impl Stdin {
        pub fn lock(&self) -> Stdin {
            Stdin(())
        }
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout(())
        }
    }
    impl Stderr {
        pub fn lock(&self) -> Stderr {
            Stderr(())
        }
    }
    impl IsTerminal for Stdin {
        fn is_terminal(&self) -> bool {
            world().tty
        }
    }
    impl IsTerminal for Stdout {
        fn is_terminal(&self) -> bool {
            world().tty
        }
    }
    impl IsTerminal for Stderr {
        fn is_terminal(&self) -> bool {
            world().tty
        }
    }
    impl Read for Stdin {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            super::op("read of stdin")?;
            let w = world();
            w.stdin_used += 1;
            let n = super::amount(buf.len(), w.stdin.len() - w.stdin_pos);
            buf[..n].copy_from_slice(&w.stdin[w.stdin_pos..w.stdin_pos + n]);
            w.stdin_pos += n;
            Ok(n)
        }
    }
    impl Write for Stdout {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            super::op("write to stdout")?;
            let n = super::accepted(buf.len());
            world().out.extend_from_slice(&buf[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Write for Stderr {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            Ok(buf.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
}
fn amount(want: usize, have: usize) -> usize {
    let n = ::std::cmp::min(want, have);
    if world().chunk == 0 {
        n
    } else {
        ::std::cmp::min(n, world().chunk)
    }
}
fn accepted(n: usize) -> usize {
    if world().short && n > 1 && nd::choice(2) == 1 {
        world().short = false;
        n / 2
    } else {
        n
    }
}
pub mod fs {
    use super::{op, plain, world};
    pub use ::std::fs::{FileTimes, TryLockError};
    use ::std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
    use ::std::path::{Path, PathBuf};

    fn name<P: AsRef<Path>>(p: P) -> String {
        plain(p.as_ref().to_str().unwrap()).to_string()
    }
    fn missing<T>() -> Result<T> {
        Err(Error::from(ErrorKind::NotFound))
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Permissions(u32);
    impl Permissions {
        pub fn readonly(&self) -> bool {
            self.0 & 0o222 == 0
        }
        pub fn set_readonly(&mut self, b: bool) {
            self.0 = if b { self.0 & !0o222 } else { self.0 | 0o222 };
        }
    }
    #[derive(Debug, Clone)]
    pub struct Metadata(usize);
    impl Metadata {
        pub fn len(&self) -> u64 {
            world().nodes[self.0].data.len() as u64
        }
        pub fn permissions(&self) -> Permissions {
            Permissions(world().nodes[self.0].mode)
        }
        pub fn is_file(&self) -> bool {
            true
        }
        pub fn is_dir(&self) -> bool {
            false
        }
        pub fn is_symlink(&self) -> bool {
            false
        }
    }
    #[derive(Debug, Clone)]
    pub struct OpenOptions {
        read: bool,
        write: bool,
        append: bool,
        truncate: bool,
        create: bool,
        new: bool,
    }
    impl OpenOptions {
        pub fn new() -> OpenOptions {
            OpenOptions { read: false, write: false, append: false, truncate: false, create: false, new: false }
        }
        pub fn read(&mut self, x: bool) -> &mut Self {
            self.read = x;
            self
        }
        pub fn write(&mut self, x: bool) -> &mut Self {
            self.write = x;
            self
        }
        pub fn append(&mut self, x: bool) -> &mut Self {
            self.append = x;
            self
        }
        pub fn truncate(&mut self, x: bool) -> &mut Self {
            self.truncate = x;
            self
        }
        pub fn create(&mut self, x: bool) -> &mut Self {
            self.create = x;
            self
        }
        pub fn create_new(&mut self, x: bool) -> &mut Self {
            self.new = x;
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
            op("open")?;
            let n = name(p);
            let w = world();
            let writes = self.write || self.append;
            if (!self.read && !writes) || ((self.truncate || self.create || self.new) && !writes) || (self.append && self.truncate) {
                return Err(Error::from(ErrorKind::InvalidInput));
            }
            let node = match w.find(&n) {
                Some(_) if self.new => return Err(Error::from(ErrorKind::AlreadyExists)),
                Some(k) => k,
                None if self.create || self.new => {
                    w.put(&n, b"");
                    w.nodes.len() - 1
                }
                None => return missing(),
            };
            if self.truncate {
                w.nodes[node].data.clear();
            }
            Ok(File { node, pos: 0, read: self.read, write: writes, append: self.append })
        }
    }
    #[derive(Debug)]
    pub struct File {
        node: usize,
        pos: usize,
        read: bool,
        write: bool,
        append: bool,
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().read(true).open(p)
        }
        pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().write(true).create(true).truncate(true).open(p)
        }
        pub fn create_new<P: AsRef<Path>>(p: P) -> Result<File> {
            OpenOptions::new().read(true).write(true).create_new(true).open(p)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn metadata(&self) -> Result<Metadata> {
            op("metadata")?;
            Ok(Metadata(self.node))
        }
        pub fn set_permissions(&self, p: Permissions) -> Result<()> {
            op("set_permissions")?;
            world().nodes[self.node].mode = p.0;
            Ok(())
        }
        pub fn sync_all(&self) -> Result<()> {
            op("sync")
        }
        pub fn sync_data(&self) -> Result<()> {
            op("sync")
        }
        pub fn set_len(&self, n: u64) -> Result<()> {
            op("set_len")?;
            world().nodes[self.node].data.resize(n as usize, 0);
            Ok(())
        }
        fn get(&mut self, buf: &mut [u8]) -> Result<usize> {
            op("read")?;
            if !self.read {
                return Err(Error::from(ErrorKind::PermissionDenied));
            }
            let d = &world().nodes[self.node].data;
            let n = super::amount(buf.len(), d.len().saturating_sub(self.pos));
            buf[..n].copy_from_slice(&d[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
        fn put(&mut self, buf: &[u8]) -> Result<usize> {
            op("write")?;
            if !self.write {
                return Err(Error::from(ErrorKind::PermissionDenied));
            }
            let n = super::accepted(buf.len());
            let d = &mut world().nodes[self.node].data;
            if self.append {
                self.pos = d.len();
            }
            if d.len() < self.pos + n {
                d.resize(self.pos + n, 0);
            }
            d[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
            self.pos += n;
            Ok(n)
        }
        fn go(&mut self, to: SeekFrom) -> Result<u64> {
            op("seek")?;
            let (base, d) = match to {
                SeekFrom::Start(x) => (0, x as i64),
                SeekFrom::End(x) => (world().nodes[self.node].data.len() as i64, x),
                SeekFrom::Current(x) => (self.pos as i64, x),
            };
            if base + d < 0 {
                return Err(Error::from(ErrorKind::InvalidInput));
            }
            self.pos = (base + d) as usize;
            Ok(self.pos as u64)
        }
    }
    impl Read for File {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            self.get(buf)
        }
    }
    impl Write for File {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            self.put(buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, to: SeekFrom) -> Result<u64> {
            self.go(to)
        }
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> Result<()> {
        op("rename")?;
        let (a, b) = (name(from), name(to));
        let w = world();
        let node = match w.find(&a) {
            Some(k) => k,
            None => return missing(),
        };
        w.names.retain(|x| x.0 != a && x.0 != b);
        w.names.push((b, node));
        Ok(())
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
        op("unlink")?;
        let a = name(p);
        if world().find(&a).is_none() {
            return missing();
        }
        world().names.retain(|x| x.0 != a);
        Ok(())
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
        op("metadata")?;
        world().find(&name(p)).map(Metadata).map_or_else(missing, Ok)
    }
    pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
        metadata(p)
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> Result<bool> {
        op("metadata")?;
        Ok(world().find(&name(p)).is_some())
    }
    pub fn set_permissions<P: AsRef<Path>>(p: P, x: Permissions) -> Result<()> {
        op("set_permissions")?;
        match world().find(&name(p)) {
            Some(k) => {
                world().nodes[k].mode = x.0;
                Ok(())
            }
            None => missing(),
        }
    }
    pub fn canonicalize<P: AsRef<Path>>(p: P) -> Result<PathBuf> {
        op("metadata")?;
        let n = name(p);
        world().find(&n).map(|_| PathBuf::from(&n)).map_or_else(missing, Ok)
    }
    pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
        let mut v = vec![];
        File::open(p)?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
        String::from_utf8(read(p)?).map_err(|_| Error::from(ErrorKind::InvalidData))
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, d: C) -> Result<()> {
        File::create(p)?.write_all(d.as_ref())
    }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> Result<u64> {
        let d = read(a)?;
        write(b, &d)?;
        Ok(d.len() as u64)
    }
    pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> Result<()> {
        op("link")?;
        let (a, b) = (name(a), name(b));
        match (world().find(&a), world().find(&b)) {
            (Some(k), None) => {
                world().names.push((b, k));
                Ok(())
            }
            (None, _) => missing(),
            _ => Err(Error::from(ErrorKind::AlreadyExists)),
        }
    }
}
