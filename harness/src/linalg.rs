//! Independent small dense linear algebra for oracles: one-sided Jacobi SVD (nalgebra 0.30's SVD
//! returns wrong singular values when only one factor is requested and need not terminate on
//! rank-deficient input, so it is no oracle).
use cv_core::nalgebra::{Dim, Matrix, Matrix3, Vector3};

pub struct Svd {
    /// Descending.
    pub s: Vec<f64>,
    /// Right singular vectors, `v[k]` belongs to `s[k]`.
    pub v: Vec<Vec<f64>>,
    /// Left singular vectors (zero vectors where `s[k]` is zero).
    pub u: Vec<Vec<f64>>,
}

/// `a` given as columns, all of the same length.
pub fn jacobi_svd_cols(mut a: Vec<Vec<f64>>) -> Svd {
    let n = a.len();
    let mut v: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    let dot = |x: &[f64], y: &[f64]| -> f64 { x.iter().zip(y).map(|(a, b)| a * b).sum() };
    for _ in 0..60 {
        let mut rotated = false;
        for p in 0..n {
            for q in p + 1..n {
                let (al, be, ga) = (dot(&a[p], &a[p]), dot(&a[q], &a[q]), dot(&a[p], &a[q]));
                if ga == 0.0 || ga.abs() <= 1e-16 * (al * be).sqrt() {
                    continue;
                }
                rotated = true;
                let z = (be - al) / (2.0 * ga);
                let t = z.signum() / (z.abs() + (1.0 + z * z).sqrt());
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for m in [&mut a, &mut v] {
                    let (lo, hi) = m.split_at_mut(q);
                    for (x, y) in lo[p].iter_mut().zip(hi[0].iter_mut()) {
                        let (xp, yq) = (*x, *y);
                        *x = c * xp - s * yq;
                        *y = s * xp + c * yq;
                    }
                }
            }
        }
        if !rotated {
            break;
        }
    }
    let s: Vec<f64> = a.iter().map(|c| dot(c, c).sqrt()).collect();
    let mut ix: Vec<usize> = (0..n).collect();
    ix.sort_by(|&i, &j| s[j].partial_cmp(&s[i]).unwrap_or(std::cmp::Ordering::Equal));
    Svd {
        s: ix.iter().map(|&i| s[i]).collect(),
        u: ix.iter().map(|&i| a[i].iter().map(|x| if s[i] > 0.0 { x / s[i] } else { 0.0 }).collect()).collect(),
        v: ix.iter().map(|&i| v[i].clone()).collect(),
    }
}

pub fn jacobi_svd<R: Dim, C: Dim, S: cv_core::nalgebra::storage::Storage<f64, R, C>>(m: &Matrix<f64, R, C, S>) -> Svd {
    jacobi_svd_cols((0..m.ncols()).map(|j| (0..m.nrows()).map(|i| m[(i, j)]).collect()).collect())
}

/// Complete SVD of a 3x3: singular values and orthogonal U, V (completed for rank >= 2).
pub fn svd3(m: &Matrix3<f64>) -> (Vector3<f64>, Matrix3<f64>, Matrix3<f64>) {
    let d = jacobi_svd(m);
    let col = |x: &Vec<f64>| Vector3::new(x[0], x[1], x[2]);
    let (u0, u1) = (col(&d.u[0]), col(&d.u[1]));
    let mut u2 = u0.cross(&u1);
    let v = Matrix3::from_columns(&[col(&d.v[0]), col(&d.v[1]), col(&d.v[2])]);
    let raw = col(&d.u[2]);
    if raw.dot(&u2) < 0.0 {
        u2 = -u2;
    }
    (Vector3::new(d.s[0], d.s[1], d.s[2]), Matrix3::from_columns(&[u0, u1, u2]), v)
}
