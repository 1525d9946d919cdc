//! C25: sign and log-odds helpers.
use crate::lv;
use kuba::geom::vector;
use kuba::math::{f32_signum, logodds_from_probability, probability_from_logodds};
use kuba::{Vector2, Vector3};
use std::f32::INFINITY;

fn sign(x: f32) -> f32 {
    if x > 0.0 {
        1.0
    } else if x < 0.0 {
        -1.0
    } else {
        0.0
    }
}
fn number() -> f32 {
    let x = lv::any_f32();
    lv::assume(x == x);
    x
}
/// Every f32 but NaN.
#[no_mangle]
pub fn h_c25_sign() {
    let x = number();
    lv::check(f32_signum(x) == sign(x), "the sign of a number");
}
#[no_mangle]
pub fn h_c25_sign2() {
    let v = Vector2::new(number(), number());
    let s = vector::signum(&v);
    lv::check((s[0] == sign(v[0])) & (s[1] == sign(v[1])), "the signs of a vector (2-D)");
}
#[no_mangle]
pub fn h_c25_sign3() {
    let v = Vector3::new(number(), number(), number());
    let s = vector::signum(&v);
    lv::check(
        (s[0] == sign(v[0])) & (s[1] == sign(v[1])) & (s[2] == sign(v[2])),
        "the signs of a vector (3-D)",
    );
}
fn probability() -> f32 {
    let p = lv::any_f32();
    lv::assume((p >= 0.0) & (p <= 1.0));
    p
}
#[no_mangle]
pub fn h_c25_special() {
    lv::check(logodds_from_probability(0.5) == 0.0, "1/2 has log-odds 0");
    lv::check(logodds_from_probability(0.0) == -INFINITY, "0 has log-odds minus infinity");
    lv::check(logodds_from_probability(1.0) == INFINITY, "1 has log-odds infinity");
    lv::check(probability_from_logodds(0.0) == 0.5, "log-odds 0 is probability 1/2");
    lv::check(probability_from_logodds(-INFINITY) == 0.0, "log-odds minus infinity is probability 0");
    lv::check(probability_from_logodds(INFINITY) == 1.0, "log-odds infinity is probability 1");
}
/// Every probability.
#[no_mangle]
pub fn h_c25_logodds() {
    let p = probability();
    let l = logodds_from_probability(p);
    let want = (p / (1.0 - p)).ln();
    lv::check((l == want) | lv::near(l, want, 1e-5), "log-odds are the logarithm of p / (1 - p)");
    lv::check(l == l, "the log-odds of a probability are a number");
}
/// The sign of the log-odds: 1/2 is 0.
#[no_mangle]
pub fn h_c25_side() {
    let p = probability();
    let l = logodds_from_probability(p);
    if p < 0.5 {
        lv::check(l < 0.0, "less than 1/2 has negative log-odds");
    } else if p > 0.5 {
        lv::check(l > 0.0, "more than 1/2 has positive log-odds");
    }
}
/// Two probabilities.
//# fp_lemmas=1
#[no_mangle]
pub fn h_c25_order() {
    let p = probability();
    let q = probability();
    lv::assume(p <= q);
    lv::check(
        logodds_from_probability(p) <= logodds_from_probability(q),
        "log-odds do not decrease with the probability",
    );
}
/// Every log-odds.
#[no_mangle]
pub fn h_c25_probability() {
    let l = number();
    let p = probability_from_logodds(l);
    let want = 1.0 - 1.0 / (1.0 + l.exp());
    lv::check((p == want) | lv::near(p, want, 1e-6), "the probability is 1 - 1 / (1 + exp(l))");
}
#[no_mangle]
pub fn h_c25_range() {
    let l = number();
    let p = probability_from_logodds(l);
    lv::check((p >= 0.0) & (p <= 1.0), "a probability lies between 0 and 1");
    if l >= 0.0 {
        lv::check(p >= 0.5, "positive log-odds are a probability of at least 1/2");
    } else {
        lv::check(p <= 0.5, "negative log-odds are a probability of at most 1/2");
    }
}
/// Two log-odds.
//# fp_lemmas=1
#[no_mangle]
pub fn h_c25_order_probability() {
    let l = number();
    let m = number();
    lv::assume(l <= m);
    lv::check(
        probability_from_logodds(l) <= probability_from_logodds(m),
        "probabilities do not decrease with the log-odds",
    );
}
