//@include prelude.rs
//@include abort.rs
//@include book_types.rs
//@include requant.rs
fn main() {}
}
