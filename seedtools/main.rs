mod mock;
use mock::*;
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &ok()));
    let r = run(c.execute_query("select 1")).expect("hangs");
    assert!(r.is_ok(), "{r:?}");
}
