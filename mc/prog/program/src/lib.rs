//! The shipped program, with its output kept instead of printed.
mod program {
    use std::cell::RefCell;
    thread_local! { pub static OUT: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
    macro_rules! println {
        () => { OUT.with(|o| o.borrow_mut().push(String::new())) };
        ($($t:tt)*) => { OUT.with(|o| o.borrow_mut().push(format!($($t)*))) };
    }
    mod inner {
        use super::OUT;
        include!(concat!(env!("OUT_DIR"), "/program.rs"));
        pub fn start() {
            let _ = main();
        }
    }
    pub fn run() -> Vec<String> {
        OUT.with(|o| o.borrow_mut().clear());
        inner::start();
        OUT.with(|o| o.borrow_mut().split_off(0))
    }
}
pub use program::run;
