use std::path::Path;

fn cpath(p: &Path) -> std::ffi::CString {
    use std::os::unix::ffi::OsStrExt;
    std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// Sets the modification (and access) time of a file.
pub fn set_mtime(p: &Path, sec: i64, nsec: i64) {
    let t = libc::timespec { tv_sec: sec, tv_nsec: nsec };
    let ts = [t, t];
    let r = unsafe { libc::utimensat(libc::AT_FDCWD, cpath(p).as_ptr(), ts.as_ptr(), 0) };
    assert_eq!(r, 0, "utimensat {:?}", p);
}

pub fn now_ns() -> u128 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()
}
