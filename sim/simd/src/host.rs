// Fork servers for the real binaries, and the shared memory through which they talk to the simulator.
use crate::proto::*;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command};

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Ctl {
    cmd: u32,
    pidx: u32,
    sidx: u32,
    pid: u32,
}
struct Zygote {
    ctl: i32,
    child: Child,
}
pub struct Host {
    pub shm: *mut Shm,
    shm_fd: i32,
    zyg: Vec<Zygote>,
}
pub fn harness(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", msg);
    std::process::exit(2);
}
pub fn pin_to_cpu(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
impl Host {
    pub fn new(shim: &str, bins: &[String]) -> Host {
        unsafe {
            let fd = libc::memfd_create(c"simshm".as_ptr(), libc::MFD_CLOEXEC);
            if fd < 0 || libc::ftruncate(fd, std::mem::size_of::<Shm>() as i64) != 0 {
                harness("memfd");
            }
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            if p == libc::MAP_FAILED {
                harness("mmap");
            }
            let mut h = Host { shm: p as *mut Shm, shm_fd: fd, zyg: vec![] };
            for b in bins {
                h.spawn(shim, b);
            }
            h
        }
    }
    unsafe fn spawn(&mut self, shim: &str, bin: &str) {
        let mut sv = [0i32; 2];
        if libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) != 0 {
            harness("socketpair");
        }
        let (mine, theirs, shm) = (sv[0], sv[1], self.shm_fd);
        let mut c = Command::new(bin);
        c.env_clear().env("LD_PRELOAD", shim).env("DST_ZYGOTE", "1").stdin(std::process::Stdio::null());
        // the program's own stdout/stderr are virtual; keep the zygote quiet
        c.stdout(std::process::Stdio::null());
        if std::env::var("SIM_STDERR").is_err() {
            c.stderr(std::process::Stdio::null());
        }
        c.pre_exec(move || {
            libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let rl = libc::rlimit { rlim_cur: 8 << 20, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_STACK, &rl);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            if libc::dup2(shm, FD_SHM) < 0 || libc::dup2(theirs, FD_CTL) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
        let child = c.spawn().unwrap_or_else(|e| harness(&format!("cannot start {}: {}", bin, e)));
        libc::close(theirs);
        self.zyg.push(Zygote { ctl: mine, child });
        let k = self.zyg.len() - 1;
        let m = self.recv(k);
        if m.cmd != 9 {
            harness("fork server did not start");
        }
    }
    unsafe fn recv(&self, k: usize) -> Ctl {
        let mut c = Ctl::default();
        let mut pf = libc::pollfd { fd: self.zyg[k].ctl, events: libc::POLLIN, revents: 0 };
        if libc::poll(&mut pf, 1, 120_000) <= 0 {
            harness("fork server timeout");
        }
        let n = libc::recv(self.zyg[k].ctl, &mut c as *mut _ as *mut _, std::mem::size_of::<Ctl>(), 0);
        if n != std::mem::size_of::<Ctl>() as isize {
            harness("fork server died");
        }
        c
    }
    /// Fork a simulated process; returns (pid, socket).
    pub fn fork(&mut self, bin: usize, pidx: usize, sidx: usize) -> (i32, i32) {
        unsafe {
            let mut sv = [0i32; 2];
            if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) != 0 {
                harness("socketpair");
            }
            let mut c = Ctl { cmd: 1, pidx: pidx as u32, sidx: sidx as u32, pid: 0 };
            let mut iov = libc::iovec { iov_base: &mut c as *mut _ as *mut _, iov_len: std::mem::size_of::<Ctl>() };
            let mut cb = [0u64; 8];
            let mut m: libc::msghdr = std::mem::zeroed();
            m.msg_iov = &mut iov;
            m.msg_iovlen = 1;
            m.msg_control = cb.as_mut_ptr() as *mut _;
            m.msg_controllen = libc::CMSG_SPACE(4) as _;
            let h = libc::CMSG_FIRSTHDR(&m);
            (*h).cmsg_level = libc::SOL_SOCKET;
            (*h).cmsg_type = libc::SCM_RIGHTS;
            (*h).cmsg_len = libc::CMSG_LEN(4) as _;
            std::ptr::copy_nonoverlapping(&sv[1] as *const i32 as *const u8, libc::CMSG_DATA(h), 4);
            if libc::sendmsg(self.zyg[bin].ctl, &m, libc::MSG_NOSIGNAL) < 0 {
                harness("fork request");
            }
            libc::close(sv[1]);
            let r = self.recv(bin);
            if (r.pid as i32) <= 0 {
                harness("fork failed");
            }
            (r.pid as i32, sv[0])
        }
    }
    pub fn wait(&mut self, bin: usize, pid: i32) -> i32 {
        unsafe {
            let c = Ctl { cmd: 2, pidx: 0, sidx: 0, pid: pid as u32 };
            if libc::send(self.zyg[bin].ctl, &c as *const _ as *const _, std::mem::size_of::<Ctl>(), libc::MSG_NOSIGNAL) < 0 {
                harness("wait request");
            }
            self.recv(bin).pidx as i32
        }
    }
    pub fn slot(&self, i: usize) -> &mut Slot {
        unsafe { &mut (*self.shm).slot[i] }
    }
    pub fn answer(&self, i: usize) {
        unsafe {
            let s = &mut (*self.shm).slot[i];
            let p = &s.reply as *const u32 as *const std::sync::atomic::AtomicU32;
            (*p).store(1, std::sync::atomic::Ordering::Release);
            libc::syscall(libc::SYS_futex, p, 1, 1, 0, 0, 0);
        }
    }
    pub fn covered(&self) -> (usize, usize) {
        unsafe { ((*self.shm).cov.iter().filter(|&&b| b != 0).count(), (*self.shm).n_guards as usize) }
    }
    pub fn cov_into(&self, acc: &mut Vec<u8>) {
        unsafe {
            if acc.is_empty() {
                acc.resize(COV_CAP, 0);
            }
            for (a, b) in acc.iter_mut().zip((*self.shm).cov.iter()) {
                *a |= *b;
            }
        }
    }
}
impl Drop for Host {
    fn drop(&mut self) {
        unsafe {
            for z in &mut self.zyg {
                libc::close(z.ctl);
                let _ = z.child.kill();
                let _ = z.child.wait();
            }
            libc::munmap(self.shm as *mut _, std::mem::size_of::<Shm>());
            libc::close(self.shm_fd);
        }
    }
}
