//! Just enough of pyo3 for the generator to compile without Python.
pub struct Python;
pub struct PyModule;
pub struct PyFunction;
#[derive(Debug)]
pub struct PyErr;
pub type PyResult<T> = Result<T, PyErr>;
impl PyModule { pub fn add_function(&self, _: PyFunction) -> PyResult<()> { Ok(()) } }
#[macro_export]
macro_rules! wrap_pyfunction { ($f:path, $m:expr) => {{ let _ = &$f; let _ = &$m; Ok::<$crate::PyFunction, $crate::PyErr>($crate::PyFunction) }}; ($f:path) => {{ let _ = &$f; Ok::<$crate::PyFunction, $crate::PyErr>($crate::PyFunction) }}; }
pub mod prelude {
    pub use pyo3_macros::{pyfunction, pymodule};
    pub use crate::{wrap_pyfunction, PyErr, PyModule, PyResult, Python};
}
