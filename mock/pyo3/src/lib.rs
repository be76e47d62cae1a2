//! What the Python bindings use of `pyo3`, without Python.
pub use pyo3_macros::{pyfunction, pymodule};

#[derive(Debug)]
pub struct PyErr {
    pub text: String,
}
pub type PyResult<T> = Result<T, PyErr>;
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
impl std::error::Error for PyErr {}
macro_rules! from {
    ($($t:ty),*) => {$(
        impl From<$t> for PyErr {
            fn from(e: $t) -> PyErr {
                PyErr { text: e.to_string() }
            }
        }
    )*};
}
from!(
    std::array::TryFromSliceError,
    std::num::TryFromIntError,
    std::num::ParseIntError,
    std::str::Utf8Error,
    std::string::FromUtf8Error,
    std::ffi::NulError,
    std::io::Error,
    std::convert::Infallible
);

pub mod exceptions {
    macro_rules! exceptions {
        ($($n:ident),*) => {$(
            pub struct $n;
            impl $n {
                pub fn new_err<A: Text>(a: A) -> crate::PyErr {
                    crate::PyErr { text: a.text() }
                }
            }
        )*};
    }
    pub trait Text {
        fn text(self) -> String;
    }
    impl Text for String {
        fn text(self) -> String {
            self
        }
    }
    impl Text for &str {
        fn text(self) -> String {
            self.to_string()
        }
    }
    exceptions!(
        PyTypeError, PyValueError, PyException, PyRuntimeError, PyIndexError, PyKeyError, PyOverflowError, PyMemoryError,
        PyAssertionError, PyBufferError, PyNotImplementedError, PyOSError, PyIOError, PyUnicodeDecodeError
    );
}

#[derive(Clone, Copy)]
pub struct Python<'p>(std::marker::PhantomData<&'p ()>);

pub mod types {
    pub struct PyModule;
    impl PyModule {
        pub fn add_function(&self, _f: PyCFunction) -> crate::PyResult<()> {
            Ok(())
        }
        pub fn add<V>(&self, _n: &str, _v: V) -> crate::PyResult<()> {
            Ok(())
        }
    }
    pub struct PyCFunction;
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path, $m:expr) => {{
        let _ = $f;
        let _ = &$m;
        $crate::PyResult::Ok($crate::types::PyCFunction)
    }};
}

pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{pyfunction, pymodule, wrap_pyfunction, PyErr, PyResult, Python};
}
