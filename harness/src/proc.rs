//! Runs the real command as a process of its own, under chosen destinations,
//! limits and injected faults.
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::fd::{FromRawFd, IntoRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn fcntl(fd: i32, op: i32, arg: i32) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
}
const O_CLOEXEC: i32 = 0o2000000;

pub enum Out<'a> {
    /// Read to the end.
    Pipe,
    /// A pipe nobody reads.
    Closed,
    /// A one-page pipe whose reader leaves after this many bytes.
    Reader(usize),
    File(&'a Path),
}
pub struct Run<'a> {
    pub args: Vec<OsString>,
    pub out: Out<'a>,
    pub cwd: Option<&'a Path>,
    pub fsize: Option<u64>,
    pub env: Vec<(&'static str, OsString)>,
}
#[derive(Debug)]
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn brief(&self) -> String {
        let cut = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
        format!("exit {:?} signal {:?} stdout {} bytes {:?} stderr {:?}", self.code, self.signal, self.out.len(), cut(&self.out), cut(&self.err))
    }
}

/// Where the built programs lie.
pub fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

pub fn run<S: AsRef<OsStr>>(args: &[S]) -> Done {
    go(Run { args: args.iter().map(|s| s.as_ref().to_os_string()).collect(), out: Out::Pipe, cwd: None, fsize: None, env: vec![] })
}

pub fn go(r: Run) -> Done {
    let mut c = Command::new(bin("twiggy"));
    c.args(&r.args).stdin(Stdio::null()).stderr(Stdio::piped());
    c.env_remove("LD_PRELOAD");
    if let Some(d) = r.cwd {
        c.current_dir(d);
    }
    for (k, v) in &r.env {
        c.env(k, v);
    }
    let fsize = r.fsize;
    unsafe {
        c.pre_exec(move || {
            prctl(1, 9, 0, 0, 0);
            if let Some(k) = fsize {
                signal(25, 1);
                setrlimit(1, &[k, k]);
            }
            Ok(())
        });
    }
    let mut reader = None;
    match &r.out {
        Out::Pipe => {
            c.stdout(Stdio::piped());
        }
        Out::File(p) => {
            c.stdout(Stdio::from(std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).unwrap()));
        }
        Out::Closed | Out::Reader(_) => {
            let mut fds = [0i32; 2];
            let (rd, wr) = unsafe {
                assert_eq!(pipe2(fds.as_mut_ptr(), O_CLOEXEC), 0);
                (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
            };
            if let Out::Reader(k) = r.out {
                unsafe {
                    fcntl(fds[1], 1031, 4096);
                }
                reader = Some((rd, k));
            }
            c.stdout(unsafe { Stdio::from_raw_fd(wr.into_raw_fd()) });
        }
    }
    let mut ch = c.spawn().expect("the command starts");
    drop(c); // our copy of the pipe's other end
    let mut out = vec![];
    if let Some((rd, k)) = reader {
        let mut rd = rd.take(k as u64);
        let _ = rd.read_to_end(&mut out);
        // dropping the read end here
    }
    // stderr is small; stdout is read first, stderr concurrently to be safe
    let mut errp = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut e = vec![];
        let _ = errp.read_to_end(&mut e);
        e
    });
    if let Some(mut o) = ch.stdout.take() {
        let _ = o.read_to_end(&mut out);
    }
    let st = ch.wait().unwrap();
    let err = t.join().unwrap();
    Done { code: st.code(), signal: st.signal(), out, err }
}
