#![allow(unused, clippy::all)]
use mysql_connector::{macros::*, model::*, pool::*, types::Value, *};
type V = Vec<Value>;
fn use_<T>(t: T) {}
type S = TcpStream;
async fn pool_conn(pool: &AsyncPool<Connection, S, 2>) -> Result<Connection, Error> { todo!() }
pub async fn result_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    conn.execute_query("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn result_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    conn.query::<V>("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn result_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    conn.prepare_statement("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn result_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    conn.cleanup().await?;
    r.next().await?;
    Ok(())
}
pub async fn result_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    conn.disconnect().await?;
    r.next().await?;
    Ok(())
}
pub async fn result_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    drop(conn);
    r.next().await?;
    Ok(())
}
pub async fn result_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    conn = pool_conn(pool).await?;
    r.next().await?;
    Ok(())
}
pub async fn result_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    use_(conn);
    r.next().await?;
    Ok(())
}
pub async fn statement_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    conn.execute_query("x").await?;
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    conn.query::<V>("x").await?;
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    conn.prepare_statement("x").await?;
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    conn.cleanup().await?;
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    conn.disconnect().await?;
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    drop(conn);
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    conn = pool_conn(pool).await?;
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.prepare_statement("q").await?;
    use_(conn);
    r.execute::<Value>(&[]).await?;
    Ok(())
}
pub async fn statement_result_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    conn.execute_query("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    conn.query::<V>("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    conn.prepare_statement("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    conn.cleanup().await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    conn.disconnect().await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    drop(conn);
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    conn = pool_conn(pool).await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    use_(conn);
    r.next().await?;
    Ok(())
}
pub async fn columns_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    conn.execute_query("x").await?;
    x.columns().len();
    Ok(())
}
pub async fn columns_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    conn.query::<V>("x").await?;
    x.columns().len();
    Ok(())
}
pub async fn columns_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    conn.prepare_statement("x").await?;
    x.columns().len();
    Ok(())
}
pub async fn columns_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    conn.cleanup().await?;
    x.columns().len();
    Ok(())
}
pub async fn columns_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    conn.disconnect().await?;
    x.columns().len();
    Ok(())
}
pub async fn columns_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    drop(conn);
    x.columns().len();
    Ok(())
}
pub async fn columns_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    conn = pool_conn(pool).await?;
    x.columns().len();
    Ok(())
}
pub async fn columns_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;
    use_(conn);
    x.columns().len();
    Ok(())
}
pub async fn pending_command_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    conn.execute_query("x").await?;
    r.await?;
    Ok(())
}
pub async fn pending_command_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    conn.query::<V>("x").await?;
    r.await?;
    Ok(())
}
pub async fn pending_command_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    conn.prepare_statement("x").await?;
    r.await?;
    Ok(())
}
pub async fn pending_command_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    conn.cleanup().await?;
    r.await?;
    Ok(())
}
pub async fn pending_command_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    conn.disconnect().await?;
    r.await?;
    Ok(())
}
pub async fn pending_command_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    drop(conn);
    r.await?;
    Ok(())
}
pub async fn pending_command_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    conn = pool_conn(pool).await?;
    r.await?;
    Ok(())
}
pub async fn pending_command_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let r = conn.execute_query("q");
    use_(conn);
    r.await?;
    Ok(())
}
pub async fn pending_next_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    conn.execute_query("x").await?;
    f.await?;
    Ok(())
}
pub async fn pending_next_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    conn.query::<V>("x").await?;
    f.await?;
    Ok(())
}
pub async fn pending_next_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    conn.prepare_statement("x").await?;
    f.await?;
    Ok(())
}
pub async fn pending_next_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    conn.cleanup().await?;
    f.await?;
    Ok(())
}
pub async fn pending_next_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    conn.disconnect().await?;
    f.await?;
    Ok(())
}
pub async fn pending_next_then_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    drop(conn);
    f.await?;
    Ok(())
}
pub async fn pending_next_then_replace(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    conn = pool_conn(pool).await?;
    f.await?;
    Ok(())
}
pub async fn pending_next_then_send(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?; let f = r.next();
    use_(conn);
    f.await?;
    Ok(())
}
pub async fn statement_result_then_statement_execute(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    s.execute::<Value>(&[]).await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_statement_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    s.query::<Value, V>(&[]).await?;
    r.next().await?;
    Ok(())
}
pub async fn statement_result_then_statement_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;
    drop(s);
    r.next().await?;
    Ok(())
}
pub async fn disconnect_then_execute_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.disconnect().await?;
    conn.execute_query("x").await?;
    Ok(())
}
pub async fn disconnect_then_query(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.disconnect().await?;
    conn.query::<V>("x").await?;
    Ok(())
}
pub async fn disconnect_then_prepare_statement(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.disconnect().await?;
    conn.prepare_statement("x").await?;
    Ok(())
}
pub async fn disconnect_then_cleanup(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.disconnect().await?;
    conn.cleanup().await?;
    Ok(())
}
pub async fn disconnect_then_disconnect(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    conn.disconnect().await?;
    conn.disconnect().await?;
    Ok(())
}
pub async fn result_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut k; { let mut conn = pool_conn(pool).await?; let mut r = conn.query::<V>("q").await?; k = r; } { let mut r = k; r.next().await?; }
    Ok(())
}
pub async fn statement_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut k; { let mut conn = pool_conn(pool).await?; let mut r = conn.prepare_statement("q").await?; k = r; } { let mut r = k; r.execute::<Value>(&[]).await?; }
    Ok(())
}
pub async fn statement_result_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut k; { let mut conn = pool_conn(pool).await?; let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?; k = r; } { let mut r = k; r.next().await?; }
    Ok(())
}
pub async fn columns_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut k; { let mut conn = pool_conn(pool).await?; let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?; k = x; } { let mut x = k; x.columns().len(); }
    Ok(())
}
pub async fn pending_command_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut k; { let mut conn = pool_conn(pool).await?; let r = conn.execute_query("q"); k = r; } { let mut r = k; r.await?; }
    Ok(())
}
pub async fn pending_next_outlives(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut k; { let mut conn = pool_conn(pool).await?; let mut r = conn.query::<V>("q").await?; let f = r.next(); k = f; } { let mut f = k; f.await?; }
    Ok(())
}
pub async fn pool_item_result(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut i = pool.get().await?;
    let mut r = i.query::<V>("q").await?;
    drop(i);
    r.next().await?;
    Ok(())
}
pub async fn pool_item_after_drop(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut i = pool.get().await?;
    drop(i);
    i.execute_query("x").await?;
    Ok(())
}
pub async fn pool_item_two(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut i = pool.get().await?;
    let mut r = i.query::<V>("q").await?;
    i.execute_query("x").await?;
    r.next().await?;
    Ok(())
}
pub async fn result_after_finish(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut r = conn.query::<V>("q").await?;
    r.finish().await?;
    r.next().await?;
    Ok(())
}
pub async fn two_results(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let mut a = conn.query::<V>("q").await?;
    let mut b = conn.query::<V>("q").await?;
    a.next().await?;
    b.next().await?;
    Ok(())
}
pub async fn shared_use(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
    let c = &conn;
    c.execute_query("x").await?;
    Ok(())
}
fn main() {}
