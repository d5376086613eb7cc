// Stand-ins for the parts of std through which nd runs a command next to a thread of its own: a
// command with chosen behaviour, and threads as coroutines that are switched where they can meet.
#![allow(dead_code)]
pub use ::std::*;

pub mod sched {
    use crate::nd;
    pub struct Task {
        pub body: Option<Box<dyn FnOnce()>>,
        pub id: usize,
        pub done: bool,
    }
    pub static mut TASKS: Vec<Task> = vec![];
    pub static mut CUR: usize = 0; // task 0 is the one that started
    pub static mut IDLE: usize = 0; // switches of tasks that could not go on
    pub static mut LEFT: usize = 0; // switches of tasks that could have gone on
    #[allow(static_mut_refs)]
    pub fn tasks() -> &'static mut Vec<Task> {
        unsafe { &mut TASKS }
    }
    pub fn start(switches: usize) {
        let t = tasks();
        t.clear();
        t.push(Task { body: None, id: 0, done: false });
        unsafe {
            CUR = 0;
            IDLE = 0;
            LEFT = switches;
        }
    }
    extern "C" fn run(k: usize) {
        let body = tasks()[k].body.take().unwrap();
        body();
        tasks()[k].done = true;
        progress();
        switch(0);
        nd::fail("a thread that has ended goes on");
    }
    pub fn spawn(body: Box<dyn FnOnce()>) -> usize {
        let k = tasks().len();
        let id = nd::co_new(run, k);
        tasks().push(Task { body: Some(body), id, done: false });
        k
    }
    fn switch(k: usize) {
        unsafe { CUR = k };
        nd::co_switch(tasks()[k].id);
    }
    fn next() -> usize {
        let n = tasks().len();
        let mut k = unsafe { CUR };
        loop {
            k = (k + 1) % n;
            if !tasks()[k].done {
                return k;
            }
        }
    }
    /// a place where another task may run first
    pub fn point() {
        unsafe {
            if LEFT > 0 && next() != CUR && nd::choice(2) == 1 {
                LEFT -= 1;
                switch(next());
            }
        }
    }
    pub fn progress() {
        unsafe { IDLE = 0 };
    }
    /// the task cannot go on until another one has done something
    pub fn block(what: &str) {
        unsafe {
            IDLE += 1;
            if IDLE > 2 * tasks().len() || next() == CUR {
                nd::log(what, 0);
                nd::fail("everything waits for something else");
            }
            switch(next());
        }
    }
}

pub mod thread {
    use super::sched;
    use ::std::cell::RefCell;
    use ::std::rc::Rc;
    pub use ::std::thread::{panicking, Result};
    pub struct JoinHandle<T> {
        task: usize,
        out: Rc<RefCell<Option<T>>>,
    }
    unsafe impl<T> Send for JoinHandle<T> {}
    unsafe impl<T> Sync for JoinHandle<T> {}
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            while !self.is_finished() {
                sched::block("join");
            }
            sched::progress();
            Ok(self.out.borrow_mut().take().unwrap())
        }
        pub fn is_finished(&self) -> bool {
            sched::tasks()[self.task].done
        }
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        let task = sched::spawn(Box::new(move || {
            let x = f();
            *o.borrow_mut() = Some(x);
        }));
        sched::point();
        JoinHandle { task, out }
    }
    pub fn yield_now() {
        sched::point()
    }
    pub fn sleep(_: ::std::time::Duration) {
        sched::point()
    }
}

pub mod sync {
    use super::sched;
    pub use ::std::sync::*;
    #[derive(Default)]
    pub struct Mutex<T>(::std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub fn new(x: T) -> Self {
            Mutex(::std::sync::Mutex::new(x))
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sched::point();
            loop {
                match self.0.try_lock() {
                    Ok(x) => return Ok(x),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => sched::block("lock"),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sched::point();
            self.0.try_lock()
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
}

pub mod process {
    use super::sched;
    use ::std::ffi::OsStr;
    use ::std::io::{Error, ErrorKind, Read, Result, Write};
    pub use ::std::process::*;

    /// what the command does. It reads its input and prints its output a few bytes at a time.
    pub struct Program {
        pub given: Vec<u8>,  // what it has read
        pub input: bool,     // its standard input is open at the other end
        pub reads: usize,    // how much it reads before it closes its standard input
        pub text: Vec<u8>,   // what it prints
        pub cat: bool,       // what it reads, it prints
        pub early: bool,     // it prints without reading first, and closes its standard output
        pub room: usize,     // bytes that fit in its standard output
        pub printed: usize,  // of the text
        pub pipe: Vec<u8>,   // printed and not yet read by nd
        pub taken: usize,
        pub waited: bool,
        pub starts: bool,    // false: there is no such command
    }
    pub static mut PROGRAM: Option<Program> = None;
    #[allow(static_mut_refs)]
    pub fn program() -> &'static mut Program {
        unsafe { PROGRAM.as_mut().unwrap() }
    }
    impl Program {
        fn wants(&self) -> bool {
            // a command that copies has to get rid of what it has read first
            self.given.len() < self.reads && !(self.cat && self.printed < self.text.len())
        }
        fn ended(&self) -> bool {
            self.done() && (!self.input || self.given.len() >= self.reads)
        }
        // everything is printed
        fn done(&self) -> bool {
            self.printed == self.text.len() && (self.early || !self.input || self.given.len() >= self.reads)
        }
        fn run(&mut self) {
            if self.cat || self.early || !self.input || self.given.len() >= self.reads {
                while self.printed < self.text.len() && self.pipe.len() - self.taken < self.room {
                    self.pipe.push(self.text[self.printed]);
                    self.printed += 1;
                }
            }
        }
    }

    #[derive(Debug)]
    pub struct Stdio(u8);
    impl Stdio {
        pub fn piped() -> Stdio {
            Stdio(1)
        }
        pub fn inherit() -> Stdio {
            Stdio(0)
        }
        pub fn null() -> Stdio {
            Stdio(2)
        }
    }
    #[derive(Debug)]
    pub struct Command {
        stdin: u8,
        stdout: u8,
    }
    impl Command {
        pub fn new<S: AsRef<OsStr>>(_: S) -> Command {
            Command { stdin: 0, stdout: 0 }
        }
        pub fn arg<S: AsRef<OsStr>>(&mut self, _: S) -> &mut Command {
            self
        }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, _: I) -> &mut Command {
            self
        }
        pub fn stdin<T: Into<Stdio>>(&mut self, x: T) -> &mut Command {
            self.stdin = x.into().0;
            self
        }
        pub fn stdout<T: Into<Stdio>>(&mut self, x: T) -> &mut Command {
            self.stdout = x.into().0;
            self
        }
        pub fn stderr<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
            self
        }
        pub fn spawn(&mut self) -> Result<Child> {
            if !program().starts {
                return Err(Error::from(ErrorKind::NotFound));
            }
            program().input = self.stdin == 1;
            sched::point();
            Ok(Child {
                stdin: if self.stdin == 1 { Some(ChildStdin(())) } else { None },
                stdout: if self.stdout == 1 { Some(ChildStdout(())) } else { None },
                stderr: None,
            })
        }
    }
    #[derive(Debug)]
    pub struct ExitStatus(());
    impl ExitStatus {
        pub fn success(&self) -> bool {
            true
        }
        pub fn code(&self) -> Option<i32> {
            Some(0)
        }
    }
    #[derive(Debug)]
    pub struct Child {
        pub stdin: Option<ChildStdin>,
        pub stdout: Option<ChildStdout>,
        pub stderr: Option<ChildStdout>,
    }
    impl Child {
        pub fn wait(&mut self) -> Result<ExitStatus> {
            self.stdin = None;
            loop {
                program().run();
                if program().ended() {
                    break;
                }
                sched::block("wait");
            }
            sched::progress();
            program().waited = true;
            Ok(ExitStatus(()))
        }
        pub fn try_wait(&mut self) -> Result<Option<ExitStatus>> {
            sched::point();
            program().run();
            program().waited |= program().ended();
            Ok(if program().ended() { Some(ExitStatus(())) } else { None })
        }
        pub fn kill(&mut self) -> Result<()> {
            Ok(())
        }
    }
    #[derive(Debug)]
    pub struct ChildStdin(());
    fn give(buf: &[u8]) -> Result<usize> {
        sched::point();
        let p = program();
        loop {
            p.run();
            if p.given.len() >= p.reads {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
            if p.wants() || buf.is_empty() {
                break;
            }
            sched::block("write");
        }
        sched::progress();
        let n = ::std::cmp::min(buf.len(), p.reads - p.given.len());
        let n = if p.cat { ::std::cmp::min(n, p.room) } else { n };
        p.given.extend_from_slice(&buf[..n]);
        if p.cat {
            p.text.extend_from_slice(&buf[..n]);
        }
        p.run();
        Ok(n)
    }
    impl Write for ChildStdin {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            give(buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Write for &ChildStdin {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            give(buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Drop for ChildStdin {
        fn drop(&mut self) {
            program().input = false;
            program().run();
            sched::progress();
        }
    }
    #[derive(Debug)]
    pub struct ChildStdout(());
    impl Read for ChildStdout {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            sched::point();
            let p = program();
            loop {
                p.run();
                let n = ::std::cmp::min(buf.len(), p.pipe.len() - p.taken);
                if n > 0 {
                    buf[..n].copy_from_slice(&p.pipe[p.taken..p.taken + n]);
                    p.taken += n;
                    p.run();
                    sched::progress();
                    return Ok(n);
                }
                if p.done() || buf.is_empty() {
                    sched::progress();
                    return Ok(0);
                }
                sched::block("read");
            }
        }
    }
}
