//! C21: the KITTI point reader decodes every record or rejects the input.
use crate::lv;
use kuba::kitti::point_cloud_reader::read;
use std::io::{Error, ErrorKind, Read, Result};

/// A stream of bytes that delivers at most step[k % 2] bytes at the k-th read, is interrupted before the reads
/// whose bit is set in `stops`, and fails after `fail` bytes.
struct Source {
    bytes: Vec<u8>,
    at: usize,
    reads: usize,
    step: [usize; 2],
    stops: usize,
    fail: usize,
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let k = self.reads;
        self.reads += 1;
        if k < 8 && (self.stops >> k) & 1 == 1 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.at >= self.fail {
            return Err(Error::from(ErrorKind::Other));
        }
        let mut n = self.step[k % 2];
        if n > buf.len() {
            n = buf.len();
        }
        if n > self.bytes.len() - self.at {
            n = self.bytes.len() - self.at;
        }
        for i in 0..n {
            buf[i] = self.bytes[self.at + i];
        }
        self.at += n;
        Ok(n)
    }
}
fn bytes(n: usize) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..n {
        b.push(lv::int(0, 255) as u8);
    }
    b
}
fn decode(src: &[u8], mut input: impl Read) {
    let got = read(&mut input);
    if src.len() % 16 != 0 {
        lv::check(got.is_err(), "a length that is not a multiple of 16 is rejected");
        lv::cover("a partial record");
        return;
    }
    lv::check(got.is_ok(), "whole records are accepted");
    let cloud = match got {
        Ok(x) => x,
        _ => return,
    };
    let n = src.len() / 16;
    lv::check(cloud.num_points() == n && cloud.data.len() == 3 * n, "as many points as records");
    for (k, p) in cloud.points_iter().enumerate() {
        let mut same = true;
        for i in 0..3 {
            let mut w = [0u8; 4];
            for j in 0..4 {
                w[j] = src[16 * k + 4 * i + j];
            }
            same &= p[i].to_bits() == u32::from_ne_bytes(w);
        }
        lv::check(same, "a point is the first three values of its record, bit for bit");
    }
    if n > 1 {
        lv::cover("several records");
    }
}
/// Every content of every length, from memory.
//# max_steps=2000000
#[no_mangle]
pub fn h_c21_all() {
    let n = lv::case(lv::tier(50, 130));
    let b = bytes(n);
    decode(&b, &b[..]);
}
/// Delivered in pieces, with interruptions.
//# max_steps=2000000
#[no_mangle]
pub fn h_c21_pieces() {
    const STEP: [usize; 6] = [1, 3, 16, 17, 31, 1000];
    let n = [0, 16, 15, 32, 48, 33, 20, 4][lv::case(8)];
    let step = [STEP[lv::case(6)], STEP[lv::case(lv::tier(3, 6))]];
    let stops = [0, 1, 6, 255][lv::case(4)];
    let b = bytes(n);
    let s = Source { bytes: b.clone(), at: 0, reads: 0, step, stops, fail: usize::max_value() };
    decode(&b, s);
}
/// A stream that fails is an error, never a shorter cloud.
//# max_steps=2000000
#[no_mangle]
pub fn h_c21_fail() {
    let n = [16, 32, 40][lv::case(3)];
    let fail = [0, 16, 7][lv::case(3)];
    let b = bytes(n);
    let mut s = Source { bytes: b, at: 0, reads: 0, step: [8, 8], stops: lv::case(2), fail };
    lv::check(read(&mut s).is_err(), "a stream that fails is an error");
}

/// Long streams, in memory or in blocks: some bytes anything, the others distinct patterns.
//# max_steps=80000000
#[no_mangle]
pub fn h_c21_long() {
    let base = [1024usize, 8192, 65536, 262144, 2097152][lv::case(lv::tier(4, 5))];
    let n = base + [0, 16, 7][lv::case(3)];
    let block = [usize::max_value(), 8192, 5000][lv::case(lv::tier(2, 3))];
    if base > 100000 && (n - base == 16 || block == 8192) {
        return;
    }
    let mut b = vec![0u8; n];
    for k in 0..n {
        b[k] = (k ^ (k >> 8) ^ (k >> 16) * 5) as u8;
    }
    for k in [0, 21, n / 2 - 8, base - 16, base - 9, n - 17, n - 5, n - 1].iter() {
        b[*k] = lv::int(0, 255) as u8;
    }
    let s = Long { bytes: &b, at: 0, block };
    let mut s = s;
    let got = read(&mut s);
    if n % 16 != 0 {
        lv::check(got.is_err(), "a long stream with a partial record is rejected");
        return;
    }
    lv::check(got.is_ok(), "a long stream of whole records is accepted");
    let cloud = match got {
        Ok(x) => x,
        _ => return,
    };
    lv::check(cloud.num_points() == n / 16, "as many points as records of a long stream");
    let data = cloud.data.as_slice();
    let mut same = data.len() == n / 16 * 3;
    for k in 0..n / 16 {
        for i in 0..3 {
            let at = 16 * k + 4 * i;
            same &= data[3 * k + i].to_bits() == u32::from_ne_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
        }
    }
    lv::check(same, "the points of a long stream, bit for bit");
}
struct Long<'a> {
    bytes: &'a [u8],
    at: usize,
    block: usize,
}
impl Read for Long<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = self.block.min(buf.len()).min(self.bytes.len() - self.at);
        buf[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
