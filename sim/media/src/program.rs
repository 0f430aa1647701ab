//! Running a program's `main` in this process with chosen arguments.
use core::ffi::{c_char, c_int};
use simrt::ctx;
use std::ffi::CString;
use std::process::{ExitCode, Termination};

static mut ARGV: *mut *const c_char = core::ptr::null_mut();
static mut ARGC: usize = 0;

extern "C" fn grab(argc: c_int, argv: *mut *const c_char, _env: *const *const c_char) {
    unsafe {
        ARGV = argv;
        ARGC = argc as usize;
    }
}
#[used]
#[link_section = ".init_array"]
static GRAB: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = grab;

/// Makes room for the arguments of simulated programs.
pub fn pad() {
    if unsafe { ARGC } >= 40 {
        return;
    }
    let mut args: Vec<CString> = std::env::args().map(|a| CString::new(a).unwrap()).collect();
    while args.len() < 48 {
        args.push(c"--pad".into());
    }
    let mut p: Vec<*const c_char> = args.iter().map(|a| a.as_ptr()).collect();
    p.push(core::ptr::null());
    unsafe { libc::execv(c"/proc/self/exe".as_ptr(), p.as_ptr()) };
}

/// What `std::env::args` answers from now on in this process.
pub fn set_args(args: &[&str]) {
    unsafe {
        if ARGV.is_null() || args.len() >= ARGC {
            ctx::harness_error("no room for arguments");
        }
        for (i, a) in args.iter().enumerate() {
            *ARGV.add(i) = CString::new(*a).unwrap().into_raw();
        }
        *ARGV.add(args.len()) = core::ptr::null();
    }
}

/// The status the process would end with.
pub fn status<T: Termination>(r: T) -> i32 {
    let c = r.report();
    if c == ExitCode::SUCCESS {
        return 0;
    }
    // its only way out
    let shown = format!("{c:?}");
    let digits: String = shown.chars().filter(|c| c.is_ascii_digit()).collect();
    match digits.parse() {
        Ok(n) => n,
        Err(_) => ctx::harness_error("an exit status that does not say which it is"),
    }
}

/// Programs under test may print; nobody reads it.
pub fn quiet() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
        libc::close(fd);
    }
}

pub mod sanity {
    mod inner {
        #![allow(dead_code, unused_imports)]
        include!(concat!(env!("OUT_DIR"), "/sanity_main.rs"));
        pub fn simulated_main() -> bool {
            crate::program::status(main()) == 0
        }
    }
    pub use inner::simulated_main as run;
}

pub mod xtask_bin {
    mod inner {
        #![allow(dead_code, unused_imports)]
        include!(concat!(env!("OUT_DIR"), "/xtask_main.rs"));
        pub fn simulated_main() -> i32 {
            crate::program::status(main())
        }
    }
    pub use inner::simulated_main as run;
}

pub mod server {
    mod inner {
        #![allow(dead_code, unused_imports)]
        include!(concat!(env!("OUT_DIR"), "/server_main.rs"));
        pub fn simulated_main() -> bool {
            crate::program::status(main()) == 0
        }
    }
    pub use inner::simulated_main as run;
}
