#![allow(unused, clippy::all)]
use mysql_connector::{macros::*, model::*, pool::*, types::Value, *};
type V = Vec<Value>;
fn use_<T>(t: T) {}
type S = TcpStream;
async fn pool_conn(pool: &AsyncPool<Connection, S, 2>) -> Result<Connection, Error> { todo!() }
pub async fn result_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn result_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn result_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn result_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    conn.cleanup().await?;
    Ok(())
}
pub async fn result_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn result_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    drop(conn);
    Ok(())
}
pub async fn result_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    conn = pool_conn(pool).await?;
    Ok(())
}
pub async fn result_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    use_(conn);
    Ok(())
}
pub async fn statement_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn statement_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn statement_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn statement_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    conn.cleanup().await?;
    Ok(())
}
pub async fn statement_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn statement_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    drop(conn);
    Ok(())
}
pub async fn statement_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    conn = pool_conn(pool).await?;
    Ok(())
}
pub async fn statement_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    r.execute::<Value>(&[]).await?;
    use_(conn);
    Ok(())
}
pub async fn statement_result_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn statement_result_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn statement_result_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn statement_result_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    conn.cleanup().await?;
    Ok(())
}
pub async fn statement_result_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn statement_result_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    drop(conn);
    Ok(())
}
pub async fn statement_result_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    conn = pool_conn(pool).await?;
    Ok(())
}
pub async fn statement_result_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    use_(conn);
    Ok(())
}
pub async fn columns_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn columns_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn columns_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn columns_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    conn.cleanup().await?;
    Ok(())
}
pub async fn columns_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    conn.disconnect().await?;
    Ok(())
}
pub async fn columns_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    drop(conn);
    Ok(())
}
pub async fn columns_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    conn = pool_conn(pool).await?;
    Ok(())
}
pub async fn columns_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    x.columns().len();
    use_(conn);
    Ok(())
}
pub async fn pending_command_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn pending_command_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn pending_command_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn pending_command_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    conn.cleanup().await?;
    Ok(())
}
pub async fn pending_command_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn pending_command_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    drop(conn);
    Ok(())
}
pub async fn pending_command_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    conn = pool_conn(pool).await?;
    Ok(())
}
pub async fn pending_command_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    r.await?;
    use_(conn);
    Ok(())
}
pub async fn pending_next_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn pending_next_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn pending_next_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn pending_next_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    conn.cleanup().await?;
    Ok(())
}
pub async fn pending_next_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn pending_next_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    drop(conn);
    Ok(())
}
pub async fn pending_next_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    conn = pool_conn(pool).await?;
    Ok(())
}
pub async fn pending_next_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    f.await?;
    use_(conn);
    Ok(())
}
pub async fn statement_result_then_statement_execute(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    s.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_result_then_statement_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    s.query::<Value, V>(&[]).await?;
    Ok(())
}
pub async fn statement_result_then_statement_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    r.next().await?;
    drop(s);
    Ok(())
}
pub async fn disconnect_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.execute_query("x").await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn disconnect_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.query::<V>("x").await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn disconnect_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.prepare_statement("x").await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn disconnect_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.cleanup().await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn disconnect_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.disconnect().await?;
    Ok(())
}
pub async fn result_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    { let mut conn = pool_conn(pool).await?; let mut r = conn.query::<V>("q").await?; r.next().await?; }
    Ok(())
}
pub async fn statement_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    { let mut conn = pool_conn(pool).await?; let mut r = conn.prepare_statement("q").await?; r.execute::<Value>(&[]).await?; }
    Ok(())
}
pub async fn statement_result_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    { let mut conn = pool_conn(pool).await?; let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?; r.next().await?; }
    Ok(())
}
pub async fn columns_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    { let mut conn = pool_conn(pool).await?; let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?; x.columns().len(); }
    Ok(())
}
pub async fn pending_command_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    { let mut conn = pool_conn(pool).await?; let r = conn.execute_query("q"); r.await?; }
    Ok(())
}
pub async fn pending_next_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    { let mut conn = pool_conn(pool).await?; let mut r = conn.query::<V>("q").await?; let f = r.next(); f.await?; }
    Ok(())
}
pub async fn pool_item_result(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut i = pool.get().await?;
    let mut r = i.query::<V>("q").await?;
    r.next().await?;
    drop(i);
    Ok(())
}
pub async fn pool_item_after_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut i = pool.get().await?;
    i.execute_query("x").await?;
    drop(i);
    Ok(())
}
pub async fn pool_item_two(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut i = pool.get().await?;
    let mut r = i.query::<V>("q").await?;
    r.next().await?;
    i.execute_query("x").await?;
    Ok(())
}
pub async fn result_after_finish(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.next().await?;
    r.finish().await?;
    Ok(())
}
pub async fn two_results(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut a = conn.query::<V>("q").await?;
    a.next().await?;
    let mut b = conn.query::<V>("q").await?;
    b.next().await?;
    Ok(())
}
pub async fn shared_use(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let c = &mut conn;
    c.execute_query("x").await?;
    Ok(())
}
fn main() {}
