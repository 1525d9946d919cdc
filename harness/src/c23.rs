//! C23: reading a KITTI directory yields every frame once, in file-name order.
//! The file-system calls std makes are those defined below, over files held in memory.
use crate::lv;
use kuba::kitti::{fs, oxt_reader, point_cloud_reader};
use std::path::Path;

pub struct File {
    name: Vec<u8>,
    data: Vec<u8>,
    /// Cannot be opened.
    closed: bool,
    /// Reading fails after this many bytes.
    broken: usize,
}
pub struct Fs {
    files: Vec<File>,
    /// Where the listing is; it fails at entry `stop`.
    next: usize,
    stop: usize,
    missing: bool,
    /// Open files: index and position.
    open: Vec<(usize, usize)>,
    entry: [u8; 280],
}
static mut FS: Option<Fs> = None;
const DIR: &[u8] = b"/lv";
const FD: i32 = 1000000;

#[allow(static_mut_refs)]
fn vfs() -> Option<&'static mut Fs> {
    unsafe { FS.as_mut() }
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64;
}
const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EACCES: i32 = 13;
fn error(code: i32) -> i32 {
    unsafe { *__errno_location() = code };
    -1
}
unsafe fn text(p: *const u8) -> &'static [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
/// The index of the file with this path.
fn find(f: &Fs, path: &[u8]) -> Option<usize> {
    let n = DIR.len();
    if path.len() <= n + 1 || path[n] != b'/' {
        return None;
    }
    for k in 0..n {
        if path[k] != DIR[k] {
            return None;
        }
    }
    for (k, file) in f.files.iter().enumerate() {
        if file.name.len() != path.len() - n - 1 {
            continue;
        }
        let mut same = true;
        for i in 0..file.name.len() {
            same &= file.name[i] == path[n + 1 + i];
        }
        if same {
            return Some(k);
        }
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const u8) -> *mut u8 {
    let f = match vfs() {
        Some(f) if !f.missing && text(path) == DIR => f,
        _ => {
            error(ENOENT);
            return std::ptr::null_mut();
        }
    };
    f.next = 0;
    f.entry.as_mut_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(_: *mut u8) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_: *mut u8) -> i32 {
    FD - 1
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(_: *mut u8) -> *mut u8 {
    let f = match vfs() {
        Some(f) => f,
        None => return std::ptr::null_mut(),
    };
    let k = f.next;
    f.next += 1;
    if k == f.stop {
        error(EIO);
        return std::ptr::null_mut();
    }
    // The two entries every directory has, somewhere in the listing.
    let dots: &[u8] = if k == 0 {
        b"."
    } else if k == 2 {
        b".."
    } else {
        b""
    };
    let name: &[u8] = if dots.len() > 0 {
        dots
    } else {
        let i = if k > 2 { k - 2 } else { k - 1 };
        if i >= f.files.len() {
            if k == 1 {
                // the second of the dots is still to come
                f.next += 1;
                b".."
            } else {
                return std::ptr::null_mut();
            }
        } else {
            &f.files[i].name
        }
    };
    let e = f.entry.as_mut_ptr();
    *(e as *mut u64) = k as u64 + 1;
    *(e.add(8) as *mut i64) = k as i64;
    *(e.add(16) as *mut u16) = 280;
    *e.add(18) = if name[0] == b'.' { 4 } else { 8 };
    for i in 0..name.len() {
        *e.add(19 + i) = name[i];
    }
    *e.add(19 + name.len()) = 0;
    e
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let f = match vfs() {
        Some(f) => f,
        None => return syscall(257, -100, path as i64, flags as i64, mode as i64) as i32,
    };
    match find(f, text(path)) {
        Some(k) => {
            if f.files[k].closed {
                return error(EACCES);
            }
            f.open.push((k, 0));
            FD + f.open.len() as i32 - 1
        }
        None => error(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= FD {
        return 0;
    }
    syscall(3, fd as i64, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd < FD {
        return syscall(0, fd as i64, buf as i64, n as i64, 0) as isize;
    }
    let f = vfs().unwrap();
    let (k, at) = f.open[(fd - FD) as usize];
    let file = &f.files[k];
    if at >= file.broken {
        return error(EIO) as isize;
    }
    let mut m = file.data.len() - at;
    if m > n {
        m = n;
    }
    if m > file.broken - at {
        m = file.broken - at;
    }
    for i in 0..m {
        *buf.add(i) = file.data[at + i];
    }
    f.open[(fd - FD) as usize].1 = at + m;
    m as isize
}
unsafe fn status(k: Option<usize>, out: *mut u8) -> i32 {
    for i in 0..256 {
        *out.add(i) = 0;
    }
    let f = vfs().unwrap();
    *(out as *mut u32) = 0x7ff;
    *(out.add(4) as *mut u32) = 4096;
    *(out.add(16) as *mut u32) = 1;
    match k {
        Some(k) => {
            *(out.add(28) as *mut u16) = 0o100644;
            *(out.add(32) as *mut u64) = k as u64 + 10;
            *(out.add(40) as *mut u64) = f.files[k].data.len() as u64;
        }
        None => *(out.add(28) as *mut u16) = 0o40755,
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    let f = match vfs() {
        Some(f) => f,
        None => return error(38 + 0 * (flags + mask as i32)),
    };
    let p = if path.is_null() { &b""[..] } else { text(path) };
    if fd >= FD && p.len() == 0 {
        return status(Some(f.open[(fd - FD) as usize].0), out);
    }
    if p == DIR {
        return if f.missing { error(ENOENT) } else { status(None, out) };
    }
    match find(f, p) {
        Some(k) => status(Some(k), out),
        None => error(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, offset: i64, whence: i32) -> i64 {
    if fd < FD {
        return syscall(8, fd as i64, offset, whence as i64, 0);
    }
    let f = vfs().unwrap();
    let (k, at) = f.open[(fd - FD) as usize];
    let to = match whence {
        0 => offset,
        1 => at as i64 + offset,
        _ => f.files[k].data.len() as i64 + offset,
    };
    f.open[(fd - FD) as usize].1 = to as usize;
    to
}

const GOOD: usize = usize::MAX;
/// Names of one to three characters, any of them, before an extension or none.
fn name(form: usize) -> Vec<u8> {
    let mut v = vec![];
    let (n, end) = [(1, ".txt"), (2, ".txt"), (1, ".bin"), (1, ""), (3, ".txt")][form];
    for k in 0..n {
        let c = lv::int(if k == 0 { '0' as i64 } else { '-' as i64 }, 'z' as i64) as u8;
        lv::assume(c != b'/');
        v.push(c);
    }
    v.extend_from_slice(end.as_bytes());
    v
}
/// Some number of files with different names, in any listing order.
fn names(n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let x = name(lv::case(lv::tier(2, 4)));
        for y in v.iter() {
            if y.len() == x.len() {
                let mut same = true;
                for i in 0..x.len() {
                    same &= x[i] == y[i];
                }
                lv::assume(!same);
            }
        }
        v.push(x);
    }
    v
}
fn mount(names: Vec<Vec<u8>>, data: Vec<Vec<u8>>) -> &'static mut Fs {
    let mut files = vec![];
    for (name, data) in names.into_iter().zip(data) {
        files.push(File { name, data, closed: false, broken: GOOD });
    }
    unsafe {
        FS = Some(Fs { files, next: 0, stop: GOOD, missing: false, open: vec![], entry: [0; 280] });
    }
    vfs().unwrap()
}
fn unmount() {
    unsafe { FS = None };
}
/// Whether a is before b.
fn before(a: &[u8], b: &[u8]) -> bool {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    for i in 0..n {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    a.len() < b.len()
}
/// The position of each file in name order.
fn ranks(names: &[Vec<u8>]) -> Vec<usize> {
    let mut v = vec![];
    for a in names {
        let mut r = 0;
        for b in names {
            r += before(b, a) as usize;
        }
        v.push(r);
    }
    v
}
/// The listing is sorted and complete.
#[no_mangle]
pub fn h_c23_order() {
    let n = lv::case(4);
    let all = names(n);
    mount(all.clone(), vec![vec![]; n]);
    let got = fs::seq_files_in_dir(Path::new("/lv"));
    unmount();
    lv::check(got.is_ok(), "a readable directory is read");
    let paths = match got {
        Ok(x) => x,
        _ => return,
    };
    lv::check(paths.len() == n, "one path per file");
    if paths.len() != n {
        return;
    }
    let at = ranks(&all);
    for k in 0..n {
        let p = paths[at[k]].to_str().unwrap().as_bytes();
        let mut same = p.len() == all[k].len() + 4;
        for i in 0..all[k].len() {
            same = same && p[4 + i] == all[k][i];
        }
        lv::check(same, "the paths are in name order");
    }
    if n > 2 {
        lv::cover("three files");
    }
}
const PLACE: [(&str, f64, f64); 4] = [
    ("49.25 8.5 ", 49.25, 8.5),
    ("-33.5 151.25 ", -33.5, 151.25),
    ("49.251 8.75 ", 49.251, 8.75),
    ("49.5 8.5 ", 49.5, 8.5),
];
const TURN: [(&str, f32); 4] = [("0.25", 0.25), ("-1.5", -1.5), ("0", 0.0), ("3", 3.0)];
fn same(a: f32, b: f64) -> bool {
    let d = a as f64 - b;
    let m = if b < 0.0 { -b } else { b };
    d <= m * 1e-6 + 1e-6 && -d <= m * 1e-6 + 1e-6
}
/// Poses: every altitude of two digits, the other fields as listed.
//# max_steps=4000000 first_ms=5000 rel=1
#[no_mangle]
pub fn h_c23_poses() {
    let n = lv::case(4);
    let shift = lv::case(lv::tier(2, 4));
    let print = lv::case(2) == 1;
    let all = names(n);
    let mut data = vec![];
    let mut height = vec![];
    for k in 0..n {
        let j = (k + shift) % 4;
        let (a, b) = (lv::int(0, 9), lv::int(0, 9));
        let mut d = PLACE[j].0.as_bytes().to_vec();
        d.push(b'0' + a as u8);
        d.push(b'0' + b as u8);
        d.extend_from_slice(b" 0 0 ");
        d.extend_from_slice(TURN[j].0.as_bytes());
        d.extend_from_slice(b" 7 7");
        height.push((a * 10 + b) as f64);
        data.push(d);
    }
    mount(all.clone(), data);
    let got = oxt_reader::read_from_dir(Path::new("/lv"), print);
    unmount();
    lv::check(got.is_ok(), "readable poses are read");
    let poses = match got {
        Ok(x) => x,
        _ => return,
    };
    lv::check(poses.len() == n, "one pose per file");
    if poses.len() != n {
        return;
    }
    let at = ranks(&all);
    let mut first = 0;
    for k in 0..n {
        if at[k] == 0 {
            first = k;
        }
    }
    for k in 0..n {
        let t = poses[at[k]].translation.vector;
        let (p, q) = (PLACE[(k + shift) % 4], PLACE[(first + shift) % 4]);
        let east = (p.2 - q.2) * (q.1 * (std::f64::consts::PI / 180.0)).cos() * 40075160.0 / 360.0;
        let north = (p.1 - q.1) * 40008000.0 / 360.0;
        let r = poses[at[k]].rotation.as_ref().coords;
        let half = TURN[(k + shift) % 4].1 / 2.0;
        if k == first {
            lv::check(t[0] == 0.0 && t[1] == 0.0 && t[2] == 0.0, "the first pose is at the origin");
        }
        lv::check(
            same(t[0], east) & same(t[1], north) & same(t[2], height[k] - height[first]),
            "positions are relative to that of the first file, in name order",
        );
        lv::check(lv::near(r[2], half.sin(), 1e-5), "rotations are those of the files, in name order");
    }
    if n > 2 {
        lv::cover("three poses");
    }
}
/// Point clouds: any values, bit for bit.
//# max_steps=4000000
#[no_mangle]
pub fn h_c23_points() {
    let n = lv::case(4);
    let size = [[1, 1, 1], [0, 2, 1], [2, 1, 0]][lv::case(lv::tier(2, 3))];
    let print = lv::case(2) == 1;
    let all = names(n);
    let mut data = vec![];
    for k in 0..n {
        let mut d = vec![];
        for _ in 0..16 * size[k] {
            d.push(lv::int(0, 255) as u8);
        }
        data.push(d);
    }
    mount(all.clone(), data.clone());
    let got = point_cloud_reader::read_from_dir(Path::new("/lv"), print);
    unmount();
    lv::check(got.is_ok(), "readable clouds are read");
    let clouds = match got {
        Ok(x) => x,
        _ => return,
    };
    lv::check(clouds.len() == n, "one cloud per file");
    if clouds.len() != n {
        return;
    }
    let at = ranks(&all);
    for k in 0..n {
        let c = &clouds[at[k]];
        lv::check(c.num_points() == size[k], "clouds are in name order");
        if c.num_points() != size[k] {
            return;
        }
        let mut ok = true;
        for (j, p) in c.points_iter().enumerate() {
            for i in 0..3 {
                let mut w = [0u8; 4];
                for b in 0..4 {
                    w[b] = data[k][16 * j + 4 * i + b];
                }
                ok &= p[i].to_bits() == u32::from_ne_bytes(w);
            }
        }
        lv::check(ok, "clouds hold the points of their files, in name order");
    }
    if n > 2 {
        lv::cover("three clouds");
    }
}
/// Anything that fails, at any file or entry, fails the whole.
//# max_steps=4000000
#[no_mangle]
pub fn h_c23_fail() {
    let poses = lv::case(2) == 1;
    let print = lv::case(2) == 1;
    let n = 1 + lv::case(3);
    let bad = lv::case(n);
    let how = lv::case(7);
    let mut all = vec![];
    for _ in 0..n {
        let x = vec![lv::int('0' as i64, 'z' as i64) as u8, b'.', b't'];
        for y in all.iter() {
            lv::assume(x != *y);
        }
        all.push(x);
    }
    let good: &[u8] = if poses { b"49 8 100 0 0 0 1 1" } else { b"0123456789abcdef0123456789abcdef" };
    let f = mount(all.clone(), vec![good.to_vec(); n]);
    match how {
        0 => f.files[bad].closed = true,
        1 => f.files[bad].broken = 0,
        2 => f.files[bad].broken = 16,
        3 => {
            f.files[bad].data.truncate(10);
        }
        4 => {
            // the number of fields is wrong, or the length
            f.files[bad].data.truncate(if poses { 11 } else { 17 });
        }
        5 => f.stop = lv::case(n + 3),
        _ => f.missing = true,
    }
    if how == 5 && f.stop > n + 1 {
        // after the last entry
        f.stop = n + 2;
    }
    let ok = if poses {
        oxt_reader::read_from_dir(Path::new("/lv"), print).is_ok()
    } else {
        point_cloud_reader::read_from_dir(Path::new("/lv"), print).is_ok()
    };
    let f = vfs().unwrap();
    let seen = how != 5 || f.next > f.stop;
    unmount();
    if seen {
        lv::check(!ok, "anything that cannot be read is an error");
    }
    if how == 5 && seen {
        lv::cover("the listing fails");
    }
    if how != 5 {
        lv::cover("a file fails");
    }
}
