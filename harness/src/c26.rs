//! C26: log-odds and probability conversions invert each other up to rounding.
//! opts: rel
use crate::lv;
use kuba::math::{logodds_from_probability, probability_from_logodds};

/// 2^-22
const U: f64 = 2.384185791015625e-7;

/// Every probability, in pieces that halve towards 0 and towards 1.
#[no_mangle]
pub fn h_c26_probability() {
    let k = lv::case(20);
    let near_one = lv::case(2) == 1;
    let hi = 0.5 / (1u64 << k) as f64;
    let lo = if k == 19 { if near_one { U / 4.0 } else { 1.5e-45 } } else { hi * 0.5 };
    let p = if near_one { lv::real(1.0 - hi, 1.0 - lo) } else { lv::real(lo, hi) };
    let q = probability_from_logodds(logodds_from_probability(p));
    lv::check(lv::near(q, p, 2.0 * U), "a probability comes back from its log-odds");
}
#[no_mangle]
pub fn h_c26_ends() {
    for p in [0.0f32, 0.5, 1.0] {
        lv::check(probability_from_logodds(logodds_from_probability(p)) == p, "0, 1/2 and 1 come back exactly");
    }
}

const EXP: [f64; 11] = [1.0, 2.72, 7.39, 20.1, 54.6, 148.5, 403.5, 1096.7, 2981.0, 8103.1, 22026.5];
/// Log-odds of magnitude up to 10; a rounding error of the probability is magnified by e^|l|.
#[no_mangle]
pub fn h_c26_logodds() {
    let k = lv::case(10);
    let part = lv::case(4);
    let neg = lv::case(2) == 1;
    let (lo, hi) = (k as f64 + part as f64 * 0.25, k as f64 + part as f64 * 0.25 + 0.25);
    let l = if neg { lv::real(-hi, -lo) } else { lv::real(lo, hi) };
    let m = logodds_from_probability(probability_from_logodds(l));
    lv::check(lv::near(m, l, U * (1.0 + EXP[k + 1])), "a log-odds value comes back from its probability");
}
