//! The embedded interpreter
use simcore::runner;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::Once;

extern "C" {
    fn Py_InitializeEx(sigs: c_int);
    fn PyRun_SimpleString(s: *const c_char) -> c_int;
    fn PyImport_AddModule(s: *const c_char) -> *mut c_void;
    fn PyObject_GetAttrString(o: *mut c_void, s: *const c_char) -> *mut c_void;
    fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> *mut c_void;
    fn PyUnicode_AsUTF8(o: *mut c_void) -> *const c_char;
    fn PyObject_CallFunctionObjArgs(f: *mut c_void, ...) -> *mut c_void;
    fn Py_DecRef(o: *mut c_void);
    fn PyErr_Print();
    fn PyErr_Clear();
    fn PyEval_SaveThread() -> *mut c_void;
    fn PyGILState_Ensure() -> c_int;
    fn PyGILState_Release(s: c_int);
}

static INIT: Once = Once::new();

fn attr(name: &str) -> *mut c_void {
    unsafe {
        let m = PyImport_AddModule(c"__main__".as_ptr());
        let n = CString::new(name).unwrap();
        let f = PyObject_GetAttrString(m, n.as_ptr());
        assert!(!f.is_null(), "HARNESS: no {name} in the driver");
        f
    }
}

/// Python for the time of one run
pub struct Py {
    gil: c_int,
    call: *mut c_void,
    reset: *mut c_void,
    collect: *mut c_void,
}

impl Py {
    pub fn enter() -> Py {
        INIT.call_once(|| unsafe {
            for (k, v) in [("PYTHONHASHSEED", "0"), ("PYTHONDONTWRITEBYTECODE", "1"), ("PYTHONNOUSERSITE", "1")] {
                std::env::set_var(k, v);
            }
            for k in ["PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP", "PYTHONMALLOC"] {
                std::env::remove_var(k);
            }
            Py_InitializeEx(0);
            let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            let src = format!("import sys\nsys.path.insert(0, {:?})\n{}", format!("{root}/target-tools/py"), include_str!("driver.py"));
            let src = CString::new(src).unwrap();
            if PyRun_SimpleString(src.as_ptr()) != 0 {
                PyErr_Print();
                println!("HARNESS: the Python module cannot be imported");
                libc::_exit(2);
            }
            PyEval_SaveThread();
        });
        let gil = unsafe { PyGILState_Ensure() };
        let p = Py { gil, call: attr("call"), reset: attr("reset"), collect: attr("collect") };
        p.run0(p.reset);
        p
    }

    fn run0(&self, f: *mut c_void) {
        unsafe {
            let r = PyObject_CallFunctionObjArgs(f, std::ptr::null_mut::<c_void>());
            if r.is_null() {
                PyErr_Print();
            } else {
                Py_DecRef(r);
            }
        }
    }

    pub fn collect(&self) {
        self.run0(self.collect);
    }

    /// What evaluating the expression gives, and the code run meanwhile
    pub fn eval(&self, src: &str) -> Vec<String> {
        unsafe {
            let s = PyUnicode_FromStringAndSize(src.as_ptr().cast(), src.len() as isize);
            let r = PyObject_CallFunctionObjArgs(self.call, s, std::ptr::null_mut::<c_void>());
            Py_DecRef(s);
            if r.is_null() {
                PyErr_Clear();
                return vec!["!?".into()];
            }
            let t = CStr::from_ptr(PyUnicode_AsUTF8(r)).to_string_lossy().into_owned();
            Py_DecRef(r);
            t.split('\n').map(String::from).collect()
        }
    }
}

impl Drop for Py {
    fn drop(&mut self) {
        self.run0(self.reset);
        unsafe {
            for f in [self.call, self.reset, self.collect] {
                Py_DecRef(f);
            }
            PyGILState_Release(self.gil);
        }
        let _ = runner::take_panic();
    }
}
