#![allow(unused)]
// compiles only if a connection cannot be duplicated
use mysql_connector::Connection;
trait Once<X> { fn f() {} }
impl<T> Once<()> for T {}
impl<T: Clone> Once<u8> for T {}
fn main() {
    let _ = <Connection as Once<_>>::f;
}
