//! C22: the KITTI pose reader maps each field to its component of the local pose.
use crate::lv;
use kuba::kitti::oxt_reader::read;
use kuba::Pose3;
use nalgebra::{Translation3, UnitQuaternion};

/// A field: its text and its value.
struct Field {
    text: Vec<u8>,
    v64: f64,
    v32: f32,
}
/// -d.dd with every digit any digit: sign, digits before and after the point.
fn number(neg: bool, whole: usize, frac: usize) -> Field {
    let mut text = vec![];
    if neg {
        text.push(b'-');
    }
    let mut n = 0i64;
    let mut scale = 1i64;
    for k in 0..whole + frac {
        let d = lv::int(0, 9);
        n = n * 10 + d as i64;
        if k == whole {
            text.push(b'.');
        }
        if k >= whole {
            scale *= 10;
        }
        text.push(b'0' + d as u8);
    }
    let mut v64 = n as f64 / scale as f64;
    if neg {
        v64 = -v64;
    }
    // The std parser: the same single precision number, whose sine and cosine are the same.
    let v32 = match std::str::from_utf8(&text).unwrap().parse::<f32>() {
        Ok(x) => x,
        _ => panic!("not a number"),
    };
    lv::check(same(v32, v64), "the parsed number");
    Field { text, v64, v32 }
}
/// (text, value) of the fields that are fixed.
const FIXED: [[(&str, f64); 6]; 3] = [
    [("49.25", 49.25), ("8.5", 8.5), ("112.75", 112.75), ("0.25", 0.25), ("-0.5", -0.5), ("1.5", 1.5)],
    [("-33", -33.0), ("-70.75", -70.75), ("-4", -4.0), ("-2.5", -2.5), ("0.125", 0.125), ("0", 0.0)],
    [("0.5", 0.5), ("179.5", 179.5), ("0", 0.0), ("3", 3.0), ("1.25", 1.25), ("-3", -3.0)],
];
const ORIGIN: [Option<[f64; 3]>; 4] =
    [None, Some([49.0, 8.25, 100.0]), Some([-33.125, -71.0, 0.0]), Some([0.0, 179.0, -10.5])];
const FORM: [(bool, usize, usize); 6] = [(false, 2, 3), (true, 1, 2), (false, 1, 0), (true, 2, 0), (false, 0, 3), (true, 3, 2)];
const REST: &str = " 4 1.25 7";

fn same(a: f32, b: f64) -> bool {
    // f32 rounding of the result, and some for the order of the operations.
    let d = a as f64 - b;
    let m = if b < 0.0 { -b } else { b };
    d <= m * 1e-6 + 1e-6 && -d <= m * 1e-6 + 1e-6
}
fn close(a: f64, b: f64) -> bool {
    let d = a - b;
    d <= 1e-12 && -d <= 1e-12
}
fn compare(got: std::io::Result<(Pose3, Translation3<f64>)>, v: &[f64; 6], w: &[f32; 3], origin: Option<[f64; 3]>) {
    lv::check(got.is_ok(), "a well-formed record is accepted");
    let (pose, reference) = match got {
        Ok(x) => x,
        _ => return,
    };
    let r = reference.vector;
    let t = pose.translation.vector;
    match origin {
        None => {
            lv::check(t[0] == 0.0 && t[1] == 0.0 && t[2] == 0.0, "no translation without a reference");
            lv::check(close(r[0], v[0]) && close(r[1], v[1]) && close(r[2], v[2]), "the record's position becomes the reference");
        }
        Some(o) => {
            lv::check(r[0] == o[0] && r[1] == o[1] && r[2] == o[2], "a given reference is returned unchanged");
            let east = (v[1] - o[1]) * (o[0] * (std::f64::consts::PI / 180.0)).cos() * 40075160.0 / 360.0;
            let north = (v[0] - o[0]) * 40008000.0 / 360.0;
            lv::check(same(t[0], east), "x is metres east, scaled by the cosine of the reference latitude");
            lv::check(same(t[1], north), "y is metres north");
            lv::check(same(t[2], v[2] - o[2]), "z is metres up");
        }
    }
    let q = UnitQuaternion::<f32>::from_euler_angles(w[0], w[1], w[2]);
    let (a, b) = (pose.rotation.as_ref().coords, q.as_ref().coords);
    let mut ok = true;
    for i in 0..4 {
        ok &= lv::near(a[i], b[i], 1e-5);
    }
    lv::check(ok, "roll, pitch and yaw are the fourth to sixth fields");
}
/// One field has any digits, the others are fixed.
//# max_steps=2000000 first_ms=5000 rel=1
#[no_mangle]
pub fn h_c22_fields() {
    let at = lv::case(6);
    let f = FORM[lv::case(lv::tier(4, 6))];
    let k = lv::case(lv::tier(2, 3));
    let origin = ORIGIN[lv::case(4)];
    let x = number(f.0, f.1, f.2);
    let mut line = vec![];
    let mut v = [0.0; 6];
    let mut w = [0.0f32; 3];
    for i in 0..6 {
        if i > 0 {
            line.push(b' ');
        }
        if i == at {
            line.extend_from_slice(&x.text);
            v[i] = x.v64;
            if i > 2 {
                w[i - 3] = x.v32;
            }
        } else {
            line.extend_from_slice(FIXED[k][i].0.as_bytes());
            v[i] = FIXED[k][i].1;
            if i > 2 {
                w[i - 3] = FIXED[k][i].1 as f32;
            }
        }
    }
    line.extend_from_slice(REST.as_bytes());
    compare(read(&mut &line[..], origin.map(|o| Translation3::new(o[0], o[1], o[2]))), &v, &w, origin);
}
/// Latitude and longitude near the reference, to the last decimal.
//# max_steps=2000000 first_ms=5000 rel=1
#[no_mangle]
pub fn h_c22_near() {
    let lon = lv::case(2);
    let n = lv::tier(3, 5);
    let mut line = vec![];
    let mut v = [49.0115, 8.4225, 112.75, 0.25, -0.5, 1.5];
    let o = [49.0115, 8.4225, 100.0];
    let mut d = 0i64;
    let mut digits = vec![];
    for _ in 0..n {
        let x = lv::int(0, 9);
        d = d * 10 + x as i64;
        digits.push(b'0' + x as u8);
    }
    let scale = 10i64.pow(4 + n as u32);
    let base = [490115i64, 84225][lon];
    v[lon] = (base * 10i64.pow(n as u32) + d) as f64 / scale as f64;
    for i in 0..6 {
        if i > 0 {
            line.push(b' ');
        }
        line.extend_from_slice(["49.0115", "8.4225", "112.75", "0.25", "-0.5", "1.5"][i].as_bytes());
        if i == lon {
            line.extend_from_slice(&digits);
        }
    }
    let w = [0.25, -0.5, 1.5];
    compare(read(&mut &line[..], Some(Translation3::new(o[0], o[1], o[2]))), &v, &w, Some(o));
}
/// Records of up to eight fields: fewer than six are rejected.
#[no_mangle]
pub fn h_c22_count() {
    let n = lv::case(9);
    let k = lv::case(3);
    let origin = ORIGIN[lv::case(4)];
    let mut line = vec![];
    for i in 0..n {
        if i > 0 {
            line.push(b' ');
        }
        line.extend_from_slice(if i < 6 { FIXED[k][i].0.as_bytes() } else { b"x" });
    }
    let got = read(&mut &line[..], origin.map(|o| Translation3::new(o[0], o[1], o[2])));
    lv::check(got.is_ok() == (n >= 6), "a record is accepted if it has six fields");
}
/// Any byte in the middle or in place of a field: accepted only where it makes a number.
#[no_mangle]
pub fn h_c22_malformed() {
    let at = lv::case(6);
    let origin = ORIGIN[lv::case(2)];
    let form = lv::case(4);
    let mut line = vec![];
    let b = lv::int(0, 255) as u8;
    lv::assume(b != b' ');
    for i in 0..6 {
        if i > 0 {
            line.push(b' ');
        }
        if i != at {
            line.extend_from_slice(FIXED[0][i].0.as_bytes());
            continue;
        }
        match form {
            0 => line.push(b),
            1 => line.extend_from_slice(&[b'1', b, b'2']),
            2 => line.extend_from_slice(&[b, b'4']),
            _ => line.extend_from_slice(&[b'1', b'.', b'5', b]),
        }
    }
    line.extend_from_slice(REST.as_bytes());
    let digit = b >= b'0' && b <= b'9';
    let number = digit
        | match form {
            0 => false,
            1 => (b == b'.') | (b == b'e') | (b == b'E'),
            2 => (b == b'.') | (b == b'-') | (b == b'+'),
            _ => false,
        };
    let got = read(&mut &line[..], origin.map(|o| Translation3::new(o[0], o[1], o[2])));
    lv::check(got.is_ok() == number, "a malformed field is rejected");
    if number {
        lv::cover("a number");
    } else {
        lv::cover("not a number");
    }
}
/// Empty fields and cut records: any prefix of a record of six fields.
#[no_mangle]
pub fn h_c22_prefix() {
    let k = lv::case(3);
    let mut line = vec![];
    for i in 0..6 {
        if i > 0 {
            line.push(b' ');
        }
        line.extend_from_slice(FIXED[k][i].0.as_bytes());
    }
    let n = lv::case(40);
    if n > line.len() {
        return;
    }
    let mut spaces = 0;
    for i in 0..n {
        spaces += (line[i] == b' ') as usize;
    }
    let last = if n > 0 { line[n - 1] } else { b' ' };
    let good = spaces == 5 && last != b' ' && last != b'-';
    let got = read(&mut &line[..n], None);
    lv::check(got.is_ok() == good, "a cut record is rejected");
}
