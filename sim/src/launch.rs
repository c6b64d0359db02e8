//! Starting simulated processes: a fork server that is the real mofmt binary
//! with the shim preloaded, stopped just before `main`.

use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

#[repr(C)]
struct Iovec {
    base: *mut u8,
    len: usize,
}
#[repr(C)]
struct Msghdr {
    name: *mut u8,
    namelen: u32,
    iov: *mut Iovec,
    iovlen: usize,
    control: *mut u8,
    controllen: usize,
    flags: i32,
}
#[repr(C)]
struct Pollfd {
    fd: i32,
    events: i16,
    revents: i16,
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn socketpair(d: i32, t: i32, p: i32, sv: *mut i32) -> i32;
    fn sendmsg(fd: i32, m: *const Msghdr, flags: i32) -> isize;
    fn recvmsg(fd: i32, m: *mut Msghdr, flags: i32) -> isize;
    fn poll(p: *mut Pollfd, n: u64, timeout: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32;
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}

fn pair() -> (OwnedFd, OwnedFd) {
    let mut sv = [0i32; 2];
    // AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC
    let r = unsafe { socketpair(1, 5 | 0o2000000, 0, sv.as_mut_ptr()) };
    assert!(r == 0, "socketpair failed");
    for fd in sv {
        let sz = 512 * 1024i32;
        unsafe { setsockopt(fd, 1, 7, &sz, 4) };
    }
    unsafe { (OwnedFd::from_raw_fd(sv[0]), OwnedFd::from_raw_fd(sv[1])) }
}

fn send(fd: RawFd, parts: &[&[u8]], pass: Option<RawFd>) -> bool {
    let mut iov: Vec<Iovec> = parts.iter().map(|p| Iovec { base: p.as_ptr() as *mut u8, len: p.len() }).collect();
    let mut cbuf = [0u64; 3];
    let mut m = Msghdr {
        name: std::ptr::null_mut(),
        namelen: 0,
        iov: iov.as_mut_ptr(),
        iovlen: iov.len(),
        control: std::ptr::null_mut(),
        controllen: 0,
        flags: 0,
    };
    if let Some(p) = pass {
        // cmsghdr { len: 16 + 4, level: SOL_SOCKET, type: SCM_RIGHTS }
        cbuf[0] = 20;
        cbuf[1] = 1 | (1 << 32);
        cbuf[2] = p as u32 as u64;
        m.control = cbuf.as_mut_ptr() as *mut u8;
        m.controllen = 24;
    }
    loop {
        let r = unsafe { sendmsg(fd, &m, 0x4000) };
        if r >= 0 {
            return true;
        }
        if std::io::Error::last_os_error().raw_os_error() != Some(4) {
            return false;
        }
    }
}

/// None: end of file or error
fn recv(fd: RawFd, buf: &mut [u8]) -> Option<usize> {
    let mut iov = Iovec { base: buf.as_mut_ptr(), len: buf.len() };
    let mut m = Msghdr {
        name: std::ptr::null_mut(),
        namelen: 0,
        iov: &mut iov,
        iovlen: 1,
        control: std::ptr::null_mut(),
        controllen: 0,
        flags: 0,
    };
    loop {
        let r = unsafe { recvmsg(fd, &mut m, 0) };
        if r > 0 {
            return Some(r as usize);
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() == Some(4) {
            continue;
        }
        return None;
    }
}

fn wait_readable(fd: RawFd, ms: i32) -> bool {
    let mut p = Pollfd { fd, events: 1, revents: 0 };
    loop {
        let r = unsafe { poll(&mut p, 1, ms) };
        if r > 0 {
            return true;
        }
        if r == 0 {
            return false;
        }
    }
}

pub struct Server {
    ctl: OwnedFd,
    child: Child,
}

pub struct Handle {
    sock: OwnedFd,
    pid: i64,
    buf: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub op: u32,
    pub a: [i64; 4],
    pub p1: Vec<u8>,
    pub p2: Vec<u8>,
}

pub enum Next {
    Req(Req),
    Gone,
    Hung,
}

/// How a process ended according to the kernel.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
}

impl Server {
    pub fn start(bin: &str, shim: &str) -> Result<Server, String> {
        let (ours, theirs) = pair();
        let tfd = theirs.as_raw_fd();
        let mut cmd = Command::new(bin);
        cmd.env_clear()
            .env("LD_PRELOAD", shim)
            .env("MOSIM_CTL", tfd.to_string())
            .env("RUST_BACKTRACE", "0")
            .env("LANG", "C.UTF-8")
            .current_dir("/")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(move || {
                fcntl(tfd, 2, 0);
                // the usual 8 MB main-thread stack, whatever the caller had
                let l = Rlimit { cur: 8 << 20, max: 8 << 20 };
                setrlimit(3, &l);
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|e| format!("cannot start {bin}: {e}"))?;
        drop(theirs);
        let mut b = [0u8; 8];
        if !wait_readable(ours.as_raw_fd(), 10_000) {
            return Err("fork server did not come up".into());
        }
        match recv(ours.as_raw_fd(), &mut b) {
            Some(8) if i64::from_le_bytes(b) == 0x6d6f73696d => Ok(Server { ctl: ours, child }),
            _ => Err("fork server handshake failed".into()),
        }
    }
    fn cmd(&self, cmd: u32, argc: u32, argv: &[u8], cpu: u32, alloc: i64, pid: i64, fd: Option<RawFd>) -> i64 {
        let mut h = Vec::with_capacity(32);
        h.extend_from_slice(&cmd.to_le_bytes());
        h.extend_from_slice(&argc.to_le_bytes());
        h.extend_from_slice(&(argv.len() as u32).to_le_bytes());
        h.extend_from_slice(&cpu.to_le_bytes());
        h.extend_from_slice(&alloc.to_le_bytes());
        h.extend_from_slice(&pid.to_le_bytes());
        assert!(send(self.ctl.as_raw_fd(), &[&h, argv], fd), "fork server lost");
        let mut b = [0u8; 8];
        match recv(self.ctl.as_raw_fd(), &mut b) {
            Some(8) => i64::from_le_bytes(b),
            _ => panic!("fork server lost"),
        }
    }
    pub fn spawn(&self, argv: &[Vec<u8>], alloc_fail: i64, cpu: u32) -> Handle {
        let (ours, theirs) = pair();
        let mut s = Vec::new();
        for a in argv {
            s.extend_from_slice(a);
            s.push(0);
        }
        let pid = self.cmd(1, argv.len() as u32, &s, cpu, alloc_fail, 0, Some(theirs.as_raw_fd()));
        assert!(pid > 0, "fork failed");
        drop(theirs);
        Handle { sock: ours, pid, buf: vec![0u8; 80 * 1024] }
    }
    pub fn kill(&self, h: &Handle) {
        self.cmd(3, 0, &[], 0, 0, h.pid, None);
    }
    pub fn wait(&self, h: &Handle) -> Status {
        let st = self.cmd(2, 0, &[], 0, 0, h.pid, None);
        let sig = (st & 0x7f) as i32;
        if sig == 0 {
            Status::Exit(((st >> 8) & 0xff) as i32)
        } else {
            Status::Signal(sig)
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Handle {
    pub fn next(&mut self, guard_ms: i32) -> Next {
        if !wait_readable(self.sock.as_raw_fd(), guard_ms) {
            return Next::Hung;
        }
        match recv(self.sock.as_raw_fd(), &mut self.buf) {
            None => Next::Gone,
            Some(n) => {
                let b = &self.buf[..n];
                let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                let l = |i: usize| i64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                let (n1, n2) = (u(4) as usize, u(8) as usize);
                Next::Req(Req {
                    op: u(0),
                    a: [l(16), l(24), l(32), l(40)],
                    p1: b[48..48 + n1].to_vec(),
                    p2: b[48 + n1..48 + n1 + n2].to_vec(),
                })
            }
        }
    }
    pub fn reply(&self, ret: i64, err: i32, data: &[u8]) {
        let mut h = Vec::with_capacity(16);
        h.extend_from_slice(&ret.to_le_bytes());
        h.extend_from_slice(&err.to_le_bytes());
        h.extend_from_slice(&(data.len() as u32).to_le_bytes());
        send(self.sock.as_raw_fd(), &[&h, data], None);
    }
    /// The simulated process dies by this signal at its pending call.
    pub fn die(&self, sig: i32) {
        self.reply(i64::MIN, sig, &[]);
    }
}
