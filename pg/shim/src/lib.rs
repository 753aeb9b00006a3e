//! The run-time sized matrix interface that the generator's round_constants.rs is still written against
//! (the generator has not been ported to the const-generic one). Alpha and RoundNumbers are the
//! repository's own.
#![allow(non_snake_case)]
pub mod v1 {
    use anyhow::{anyhow, Result};
    use ark_ff::PrimeField;
    pub use real::v1::{Alpha, RoundNumbers};

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Matrix<F: PrimeField> {
        pub elements: Vec<F>,
        pub n_rows: usize,
        pub n_cols: usize,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SquareMatrix<F: PrimeField>(pub Matrix<F>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MdsMatrix<F: PrimeField>(pub SquareMatrix<F>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ArcMatrix<F: PrimeField>(pub Matrix<F>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct OptimizedArcMatrix<F: PrimeField>(pub ArcMatrix<F>);

    pub trait MatrixOperations<F: PrimeField> {
        fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self;
        fn elements(&self) -> &Vec<F>;
        fn get_element(&self, i: usize, j: usize) -> F;
        fn set_element(&mut self, i: usize, j: usize, val: F);
        fn rows(&self) -> Vec<&[F]>;
        fn n_rows(&self) -> usize;
        fn n_cols(&self) -> usize;
        fn transpose(&self) -> Self;
    }
    impl<F: PrimeField> MatrixOperations<F> for Matrix<F> {
        fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self {
            assert_eq!(elements.len(), n_rows * n_cols, "matrix with a wrong number of elements");
            Matrix { elements, n_rows, n_cols }
        }
        fn elements(&self) -> &Vec<F> {
            &self.elements
        }
        fn get_element(&self, i: usize, j: usize) -> F {
            assert!(i < self.n_rows && j < self.n_cols, "index out of range");
            self.elements[i * self.n_cols + j]
        }
        fn set_element(&mut self, i: usize, j: usize, val: F) {
            assert!(i < self.n_rows && j < self.n_cols, "index out of range");
            self.elements[i * self.n_cols + j] = val
        }
        fn rows(&self) -> Vec<&[F]> {
            self.elements.chunks(self.n_cols).collect()
        }
        fn n_rows(&self) -> usize {
            self.n_rows
        }
        fn n_cols(&self) -> usize {
            self.n_cols
        }
        fn transpose(&self) -> Self {
            let mut e = vec![];
            for j in 0..self.n_cols {
                for i in 0..self.n_rows {
                    e.push(self.get_element(i, j));
                }
            }
            Matrix { elements: e, n_rows: self.n_cols, n_cols: self.n_rows }
        }
    }
    impl<F: PrimeField> Matrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> {
            assert!(i < self.n_rows, "row out of range");
            Matrix { elements: self.elements[i * self.n_cols..(i + 1) * self.n_cols].to_vec(), n_rows: 1, n_cols: self.n_cols }
        }
    }
    macro_rules! wrap {
        ($n:ident, $make:expr) => {
            impl<F: PrimeField> MatrixOperations<F> for $n<F> {
                fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self {
                    $make(Matrix::new(n_rows, n_cols, elements))
                }
                fn elements(&self) -> &Vec<F> {
                    self.0.elements()
                }
                fn get_element(&self, i: usize, j: usize) -> F {
                    self.0.get_element(i, j)
                }
                fn set_element(&mut self, i: usize, j: usize, val: F) {
                    self.0.set_element(i, j, val)
                }
                fn rows(&self) -> Vec<&[F]> {
                    self.0.rows()
                }
                fn n_rows(&self) -> usize {
                    self.0.n_rows()
                }
                fn n_cols(&self) -> usize {
                    self.0.n_cols()
                }
                fn transpose(&self) -> Self {
                    $n(self.0.transpose())
                }
            }
        };
    }
    wrap!(SquareMatrix, SquareMatrix);
    wrap!(ArcMatrix, ArcMatrix);
    wrap!(MdsMatrix, |m| MdsMatrix(SquareMatrix(m)));
    wrap!(OptimizedArcMatrix, |m| OptimizedArcMatrix(ArcMatrix(m)));

    pub fn mat_mul<F: PrimeField, M: MatrixOperations<F>>(a: &M, b: &M) -> Result<M> {
        if a.n_cols() != b.n_rows() {
            return Err(anyhow!("matrix dimensions do not allow matrix multiplication"));
        }
        let mut e = vec![];
        for i in 0..a.n_rows() {
            for j in 0..b.n_cols() {
                e.push((0..a.n_cols()).map(|k| a.get_element(i, k) * b.get_element(k, j)).sum());
            }
        }
        Ok(M::new(a.n_rows(), b.n_cols(), e))
    }
    pub trait SquareMatrixOperations<F: PrimeField>: Sized {
        fn identity(n: usize) -> Self;
        fn inverse(&self) -> Result<Self>;
        fn determinant(&self) -> F;
        fn dim(&self) -> usize;
    }
    /// Gauss-Jordan elimination: the inverse and the determinant.
    fn eliminate<F: PrimeField>(m: &Matrix<F>) -> (Option<Matrix<F>>, F) {
        let n = m.n_rows;
        let mut det = F::one();
        let mut a: Vec<Vec<F>> = (0..n)
            .map(|i| (0..2 * n).map(|j| if j < n { m.get_element(i, j) } else if j - n == i { F::one() } else { F::zero() }).collect())
            .collect();
        for c in 0..n {
            let p = match (c..n).find(|i| !a[*i][c].is_zero()) {
                Some(p) => p,
                None => return (None, F::zero()),
            };
            if p != c {
                a.swap(c, p);
                det = -det;
            }
            det *= a[c][c];
            let inv = a[c][c].inverse().unwrap();
            a[c].iter_mut().for_each(|x| *x *= inv);
            let row = a[c].clone();
            for (i, r) in a.iter_mut().enumerate() {
                if i != c {
                    let f = r[c];
                    r.iter_mut().zip(&row).for_each(|(x, y)| *x -= f * y);
                }
            }
        }
        (Some(Matrix { elements: a.iter().flat_map(|r| r[n..].to_vec()).collect(), n_rows: n, n_cols: n }), det)
    }
    impl<F: PrimeField> SquareMatrixOperations<F> for SquareMatrix<F> {
        fn identity(n: usize) -> Self {
            SquareMatrix(Matrix { elements: (0..n * n).map(|i| if i % (n + 1) == 0 { F::one() } else { F::zero() }).collect(), n_rows: n, n_cols: n })
        }
        fn inverse(&self) -> Result<Self> {
            eliminate(&self.0).0.map(SquareMatrix).ok_or_else(|| anyhow!("no matrix inverse exists"))
        }
        fn determinant(&self) -> F {
            eliminate(&self.0).1
        }
        fn dim(&self) -> usize {
            self.0.n_rows
        }
    }
    impl<F: PrimeField> SquareMatrix<F> {
        pub fn from_vec(elements: Vec<F>) -> Self {
            let n = (0..).find(|n| n * n >= elements.len()).unwrap();
            SquareMatrix(Matrix::new(n, n, elements))
        }
    }
    impl<F: PrimeField> MdsMatrix<F> {
        pub fn inverse(&self) -> SquareMatrix<F> {
            self.0.inverse().expect("all well-formed MDS matrices should have inverses")
        }
        /// All but the first row and column; the first row and the first column without the corner.
        pub fn hat(&self) -> SquareMatrix<F> {
            let n = self.n_rows();
            let e = (1..n).flat_map(|i| (1..n).map(move |j| (i, j))).map(|(i, j)| self.get_element(i, j)).collect();
            SquareMatrix(Matrix { elements: e, n_rows: n - 1, n_cols: n - 1 })
        }
        pub fn v(&self) -> Matrix<F> {
            let n = self.n_rows();
            Matrix { elements: (1..n).map(|j| self.get_element(0, j)).collect(), n_rows: 1, n_cols: n - 1 }
        }
        pub fn w(&self) -> Matrix<F> {
            let n = self.n_rows();
            Matrix { elements: (1..n).map(|i| self.get_element(i, 0)).collect(), n_rows: n - 1, n_cols: 1 }
        }
    }
    impl<F: PrimeField> MdsMatrix<F> {
        pub fn from_elements(elements: Vec<F>) -> MdsMatrix<F> {
            let n = (0..).find(|n| n * n >= elements.len()).unwrap();
            MdsMatrix::new(n, n, elements)
        }
    }
    impl<F: PrimeField> From<ArcMatrix<F>> for Vec<Vec<F>> {
        fn from(a: ArcMatrix<F>) -> Vec<Vec<F>> {
            a.rows().iter().map(|r| r.to_vec()).collect()
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct OptimizedMdsMatrices<F: PrimeField> {
        pub M_hat: SquareMatrix<F>,
        pub v: Matrix<F>,
        pub w: Matrix<F>,
        pub M_prime: SquareMatrix<F>,
        pub M_doubleprime: SquareMatrix<F>,
        pub M_inverse: SquareMatrix<F>,
        pub M_hat_inverse: SquareMatrix<F>,
        pub M_00: F,
        pub M_i: Matrix<F>,
        pub v_collection: Vec<Matrix<F>>,
        pub w_hat_collection: Vec<Matrix<F>>,
    }
    #[derive(Clone, Debug)]
    pub struct PoseidonParameters<F: PrimeField> {
        pub M: usize,
        #[cfg(not(feature = "assembled"))]
        pub t: usize,
        pub arc: ArcMatrix<F>,
        pub mds: MdsMatrix<F>,
        pub alpha: Alpha,
        pub rounds: RoundNumbers,
        pub optimized_mds: OptimizedMdsMatrices<F>,
        pub optimized_arc: OptimizedArcMatrix<F>,
    }
}
pub mod v2 {
    pub use super::v1::{mat_mul, Alpha, ArcMatrix, Matrix, MatrixOperations, RoundNumbers, SquareMatrix, SquareMatrixOperations};
    use ark_ff::PrimeField;
    #[derive(Clone, Debug)]
    pub struct PoseidonParameters<F: PrimeField> {
        pub M: usize,
        pub arc: ArcMatrix<F>,
        pub m_i: SquareMatrix<F>,
        pub m_e: SquareMatrix<F>,
        pub alpha: Alpha,
        pub rounds: RoundNumbers,
    }
}
