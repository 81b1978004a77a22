//! Stand-in for the eigen-solver of nalgebra: same signature as `SymmetricEigen::do_decompose`.  The engine redirects
//! calls of the latter here; the environment records the matrix and supplies eigenvalues and eigenvectors.
use nalgebra::{DMatrix, DVector};
unsafe extern "C" {
    fn veig_entry(i: u64, j: u64, n: u64, x: f64);
    fn veig_lambda(i: u64) -> f64;
    fn veig_q(i: u64, j: u64) -> f64;
}
#[unsafe(no_mangle)]
pub fn stub_decompose(m: DMatrix<f64>, vecs: bool, _eps: f64, _max: usize) -> Option<(DVector<f64>, Option<DMatrix<f64>>)> {
    let n = m.nrows();
    let mut l = DVector::<f64>::zeros(n);
    let mut q = DMatrix::<f64>::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            unsafe { veig_entry(i as u64, j as u64, n as u64, m[(i, j)]) };
        }
    }
    for i in 0..n {
        l[i] = unsafe { veig_lambda(i as u64) };
        for j in 0..n {
            q[(i, j)] = unsafe { veig_q(i as u64, j as u64) };
        }
    }
    Some((l, if vecs { Some(q) } else { None }))
}
