//! C24: a point cloud preserves its points, bounds them and transforms them.
use crate::lv;
use kuba::{Point2, Point3, PointCloud2, PointCloud3};
use nalgebra::Matrix4;

macro_rules! kept {
    ($name:ident, $point:ident, $cloud:ident, $dim:expr, $n:expr) => {
        /// Any values, bit for bit.
        fn $name() {
            let n = lv::case(lv::tier($n, $n + 2));
            let mut points = vec![];
            for _ in 0..n {
                let mut p = $point::origin();
                for i in 0..$dim {
                    p[i] = lv::any_f32();
                }
                points.push(p);
            }
            let cloud = $cloud::from_points(&points);
            lv::check(cloud.num_points() == n, "as many points as given");
            let again = $cloud::from_data(cloud.data.clone());
            for c in [&cloud, &again].iter() {
                let mut k = 0;
                let mut same = true;
                for p in c.points_iter() {
                    if k < n {
                        for i in 0..$dim {
                            same &= p[i].to_bits() == points[k][i].to_bits();
                        }
                    }
                    k += 1;
                }
                lv::check(k == n, "the iterator yields every point once");
                lv::check(same, "the points are those given, in order");
            }
            if n > 1 {
                lv::cover("several points");
            }
        }
    };
}
kept!(c24_kept2, Point2, PointCloud2, 2, 5);
#[no_mangle]
pub fn h_c24_kept2() {
    c24_kept2()
}
kept!(c24_kept3, Point3, PointCloud3, 3, 4);
#[no_mangle]
pub fn h_c24_kept3() {
    c24_kept3()
}

macro_rules! bounds {
    ($name:ident, $point:ident, $cloud:ident, $dim:expr, $n:expr) => {
        /// Any finite values; a box around all of them, no larger than needed or reaching the origin.
        fn $name() {
            let n = lv::case($n);
            let mut points = vec![];
            let wide = lv::case(2) == 0;
            for _ in 0..n {
                let mut p = $point::origin();
                for i in 0..$dim {
                    p[i] = if wide { lv::real(-1e30, 1e30) } else { lv::fix(-1000, 1000, 12) };
                }
                points.push(p);
            }
            let b = $cloud::from_points(&points).bounds();
            for i in 0..$dim {
                let mut inside = true;
                let mut low = b.min[i] == 0.0;
                let mut high = b.max[i] == 0.0;
                for p in points.iter() {
                    inside &= (b.min[i] <= p[i]) & (p[i] <= b.max[i]);
                    low |= b.min[i] == p[i];
                    high |= b.max[i] == p[i];
                }
                lv::check(inside, "the bounds contain every point");
                lv::check(low & high, "each face is at the origin or at a point");
            }
            if n > 1 {
                lv::cover("several points");
            }
        }
    };
}
bounds!(c24_bounds2, Point2, PointCloud2, 2, lv::tier(4, 5));
#[no_mangle]
pub fn h_c24_bounds2() {
    c24_bounds2()
}
bounds!(c24_bounds3, Point3, PointCloud3, 3, lv::tier(3, 4));
#[no_mangle]
pub fn h_c24_bounds3() {
    c24_bounds3()
}

fn transformed(points: &[[f32; 3]], m: &[[f32; 4]; 3]) {
    let given: Vec<Point3> = points.iter().map(|p| Point3::new(p[0], p[1], p[2])).collect();
    let cloud = PointCloud3::from_points(&given);
    let t = Matrix4::new(
        m[0][0], m[0][1], m[0][2], m[0][3], m[1][0], m[1][1], m[1][2], m[1][3], m[2][0], m[2][1], m[2][2], m[2][3],
        0.0, 0.0, 0.0, 1.0,
    );
    let moved = cloud.transform(&t);
    lv::check(moved.num_points() == points.len(), "as many points as before");
    let mut k = 0;
    for p in moved.points_iter() {
        if k >= points.len() {
            break;
        }
        for i in 0..3 {
            let want = m[i][0] * points[k][0] + m[i][1] * points[k][1] + m[i][2] * points[k][2] + m[i][3];
            lv::check(p[i] == want, "each point is the matrix applied to it");
        }
        k += 1;
    }
    lv::check(k == points.len(), "every point, in order");
    let mut same = cloud.num_points() == given.len();
    for (p, q) in cloud.points_iter().zip(given.iter()) {
        for i in 0..3 {
            same &= p[i] == q[i];
        }
    }
    lv::check(same, "the original is unchanged");
    if k > 1 {
        lv::cover("several points");
    }
}
const POINTS: [[[f32; 3]; 3]; 3] = [
    [[1.0, 2.0, -3.0], [4.0, 0.0, 0.5], [0.0, 0.0, 0.0]],
    [[-1.0, -1.0, -1.0], [0.25, 7.0, 3.0], [5.0, -6.0, 8.0]],
    [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]],
];
/// Any matrix, coarse, or fine around the identity and around zero.
#[no_mangle]
pub fn h_c24_matrix() {
    let n = lv::case(4);
    let k = lv::case(3);
    let around = lv::case(3);
    let mut m = [[0.0; 4]; 3];
    for i in 0..3 {
        for j in 0..4 {
            m[i][j] = if around == 0 { lv::fix(-64, 64, 2) } else { lv::fix(-64, 64, 14) };
            if around == 2 && i == j {
                m[i][j] += 1.0;
            }
        }
    }
    transformed(&POINTS[k][..n], &m);
}
const MATRIX: [[[f32; 4]; 3]; 6] = [
    [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0]],
    [[0.0, -1.0, 0.0, 1.0], [1.0, 0.0, 0.0, -2.0], [0.0, 0.0, 1.0, 3.0]],
    [[1.0, 0.0, 0.0, 10.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, -0.125]],
    [[2.0, 3.0, 5.0, 7.0], [11.0, 13.0, 17.0, 19.0], [23.0, 29.0, 31.0, 37.0]],
    [[0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0]],
    [[-1.0, 0.5, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.25, -0.5, 4.0, -1.0]],
];
/// Any points.
#[no_mangle]
pub fn h_c24_points() {
    let n = lv::case(lv::tier(4, 6));
    let m = MATRIX[lv::case(6)];
    let fine = lv::case(2) == 1;
    let mut points = [[0.0; 3]; 5];
    for k in 0..n {
        for i in 0..3 {
            points[k][i] = if fine { lv::fix(-1000, 1000, 9) } else { lv::fix(-1000, 1000, 0) };
        }
    }
    transformed(&points[..n], &m);
}

/// Clouds of many points, some of them anywhere.
//# max_steps=20000000
#[no_mangle]
pub fn h_c24_many2() {
    let n = [33, 129, 1030][lv::case(3)];
    let mut points = vec![];
    for k in 0..n {
        points.push(Point2::new(((k * 37) % 101) as f32 - 50.0, ((k * 53) % 97) as f32 * -0.25));
    }
    for k in [n / 2, n - 1].iter() {
        if n < 200 || *k == n - 1 {
            points[*k].y = lv::fix(-1000, 1000, 3);
        }
    }
    points[n - 2].x = lv::fix(-1000, 1000, 3);
    let cloud = PointCloud2::from_points(&points);
    lv::check(cloud.num_points() == n, "as many points as given (large cloud, 2-D)");
    let mut same = true;
    let mut k = 0;
    for p in cloud.points_iter() {
        same &= k < n && p == points[k];
        k += 1;
    }
    lv::check(same && k == n, "a large cloud yields its points in order (2-D)");
    let b = cloud.bounds();
    for i in 0..2 {
        let (mut inside, mut low, mut high) = (true, b.min[i] == 0.0, b.max[i] == 0.0);
        for p in points.iter() {
            inside &= (b.min[i] <= p[i]) & (p[i] <= b.max[i]);
            low |= b.min[i] == p[i];
            high |= b.max[i] == p[i];
        }
        lv::check(inside, "the bounds contain every point of a large cloud (2-D)");
        lv::check(low & high, "each face is at the origin or at a point of a large cloud (2-D)");
    }
}
//# max_steps=20000000
#[no_mangle]
pub fn h_c24_many3() {
    let n = [33, 129, 1030][lv::case(3)];
    let mut points = vec![];
    for k in 0..n {
        points.push([((k * 37) % 101) as f32 - 50.0, ((k * 53) % 97) as f32 * -0.25, (k % 64) as f32]);
    }
    let mut m = MATRIX[lv::case(6)];
    for i in 0..3 {
        m[i][3] = lv::fix(-64, 64, 2);
    }
    for k in [0, n / 2, n - 1].iter() {
        points[*k][2] = lv::fix(-1000, 1000, 3);
    }
    transformed(&points, &m);
    let given: Vec<Point3> = points.iter().map(|p| Point3::new(p[0], p[1], p[2])).collect();
    let b = PointCloud3::from_points(&given).bounds();
    let (mut inside, mut low, mut high) = (true, b.min[2] == 0.0, b.max[2] == 0.0);
    for p in points.iter() {
        inside &= (b.min[2] <= p[2]) & (p[2] <= b.max[2]);
        low |= b.min[2] == p[2];
        high |= b.max[2] == p[2];
    }
    lv::check(inside && low & high, "the bounds of a large cloud (3-D)");
}

/// A coordinate that is not a number does not hide the other points.
#[no_mangle]
pub fn h_c24_nan() {
    let at = lv::case(3);
    let axis = lv::case(3);
    let mut points = vec![];
    for k in 0..3 {
        let mut p = Point3::origin();
        for i in 0..3 {
            p[i] = if k == at && i == axis { std::f32::NAN } else { lv::fix(-1000, 1000, 3) };
        }
        points.push(p);
    }
    let b = PointCloud3::from_points(&points).bounds();
    for i in 0..3 {
        let mut inside = true;
        for k in 0..3 {
            inside &= k == at && i == axis || (b.min[i] <= points[k][i]) & (points[k][i] <= b.max[i]);
        }
        lv::check(inside, "the bounds contain every coordinate that is a number");
    }
}
