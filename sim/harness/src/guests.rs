//! The programs under test: private copies of each guest library, so that
//! every session has its own statics (stdin buffer, panic count, libgit2
//! state), loaded once in the zygote.

use crate::scenario::Prog;
use crate::world::World;
use std::ffi::{c_char, c_int, c_void, CStr, CString};

extern "C" fn grab(_argc: c_int, argv: *mut *mut c_char, _e: *const *const c_char) {
    unsafe { ARGV = argv }
}
#[link_section = ".init_array"]
#[used]
static GRAB: extern "C" fn(c_int, *mut *mut c_char, *const *const c_char) = grab;

static mut ARGV: *mut *mut c_char = std::ptr::null_mut();
pub const PAD: usize = 12;

struct Copy {
    entry: extern "C" fn(),
}
static mut COPIES: Vec<(Prog, Vec<Copy>)> = Vec::new();
static mut NEXT: [usize; 3] = [0; 3];
static mut ARGS: Vec<(usize, Vec<CString>)> = Vec::new();

fn slot(p: &Prog) -> usize {
    match p {
        Prog::Transfer => 0,
        Prog::GitAt => 1,
        _ => 2,
    }
}

pub fn file_name(p: &Prog) -> &'static str {
    match p {
        Prog::Transfer => "libguest_transfer.so",
        Prog::GitAt => "libguest_gitat.so",
        _ => "libguest_recent.so",
    }
}

pub fn load(dir: &str, p: Prog, n: usize) -> Result<(), String> {
    let path = format!("{}/{}", dir, file_name(&p));
    let data = std::fs::read(&path).map_err(|e| format!("{}: {}", path, e))?;
    let mut v = vec![];
    for k in 0..n {
        unsafe {
            let name = CString::new(format!("guest{}", k)).unwrap();
            let fd = libc::memfd_create(name.as_ptr(), 0);
            if fd < 0 {
                return Err("memfd_create".into());
            }
            let mut off = 0;
            while off < data.len() {
                let r = libc::write(fd, data[off..].as_ptr() as *const c_void, data.len() - off);
                if r <= 0 {
                    return Err("memfd write".into());
                }
                off += r as usize;
            }
            let lp = CString::new(format!("/proc/self/fd/{}", fd)).unwrap();
            let h = libc::dlopen(lp.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                return Err(CStr::from_ptr(libc::dlerror()).to_string_lossy().into_owned());
            }
            let sym = libc::dlsym(h, b"scutiger_sim_main\0".as_ptr() as *const c_char);
            if sym.is_null() {
                return Err("no entry point".into());
            }
            v.push(Copy { entry: std::mem::transmute::<*mut c_void, extern "C" fn()>(sym) });
            // the descriptor stays open: its number is part of the library's name
        }
    }
    #[allow(static_mut_refs)]
    unsafe {
        COPIES.push((p, v))
    };
    Ok(())
}

#[allow(static_mut_refs)]
pub fn entry(p: &Prog, i: usize) -> extern "C" fn() {
    unsafe {
        let k = NEXT[slot(p)];
        NEXT[slot(p)] += 1;
        let c = COPIES.iter().find(|c| c.0 == *p).expect("guest not loaded");
        let _ = i;
        c.1.get(k).expect("too many sessions").entry
    }
}

/// Every copy reads its arguments from the process's argv; it shows those of
/// the session that runs.
#[allow(static_mut_refs)]
pub fn set_args(w: &World, i: usize) {
    unsafe {
        if !ARGS.iter().any(|a| a.0 == i) {
            let s = &w.s[i].spec;
            let name = match s.prog {
                Prog::Transfer => "git-lfs-transfer",
                Prog::GitAt => "git-at",
                _ => "git-recent-refs",
            };
            let mut v = vec![CString::new(name).unwrap()];
            for a in s.args.iter().take(PAD - 2) {
                v.push(CString::new(crate::client::bytes(a)).unwrap_or_default());
            }
            ARGS.push((i, v));
        }
        let a = &ARGS.iter().find(|a| a.0 == i).unwrap().1;
        for k in 0..PAD {
            *ARGV.add(k) = match a.get(k) {
                Some(c) => c.as_ptr() as *mut c_char,
                None => std::ptr::null_mut(),
            };
        }
    }
}
