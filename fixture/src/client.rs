use crate::{models::*, streams::*};
use mysql_connector::{error::ProtocolError, model::*, types::*, *};
use std::sync::Arc;

/// Nondeterministic choice: the analysis explores every result.
#[inline(never)]
pub fn nondet() -> u32 {
    unimplemented!()
}
/// Marks "the library reported success / a result to the caller here".
#[inline(never)]
pub fn mark(_what: u32) {}

/// The capabilities the connection goes on with.
#[inline(never)]
pub fn caps(_bits: u32) {}

pub async fn connect_plain(o: Arc<ConnectionOptions<Plain>>) -> Result<Connection, Error> {
    let c = Connection::connect(o).await?;
    caps(c.data().capabilities().bits());
    Ok(c)
}
pub async fn connect_secure(o: Arc<ConnectionOptions<Secure>>) -> Result<Connection, Error> {
    let c = Connection::connect(o).await?;
    caps(c.data().capabilities().bits());
    Ok(c)
}
pub async fn disconnect(c: Connection) -> Result<(), Error> {
    c.disconnect().await
}
pub async fn exec(c: &mut Connection, q: &str) -> Result<u64, Error> {
    c.execute_query(q).await.map(|x| x.affected_rows())
}
pub async fn cleanup(c: &mut Connection) -> Result<(), Error> {
    c.cleanup().await.map(|_| ())
}
pub async fn query_open(c: &mut Connection, q: &str) -> Result<usize, Error> {
    Ok(c.query::<Vec<Value>>(q).await?.columns().len())
}
pub async fn query_next(c: &mut Connection, q: &str) -> Result<Option<Vec<Value>>, Error> {
    c.query::<Vec<Value>>(q).await?.next().await
}
pub async fn query_collect(c: &mut Connection, q: &str) -> Result<Vec<Vec<Value>>, Error> {
    c.query::<Vec<Value>>(q).await?.collect().await
}
pub async fn query_one(c: &mut Connection, q: &str) -> Result<Option<Vec<Value>>, Error> {
    c.query::<Vec<Value>>(q).await?.one().await
}
pub async fn query_finish(c: &mut Connection, q: &str) -> Result<u64, Error> {
    Ok(c.query::<Vec<Value>>(q).await?.finish().await?.affected_rows())
}
pub async fn query_finish_into_inner(c: &mut Connection, q: &str) -> Result<usize, Error> {
    Ok(c.query::<Vec<Value>>(q).await?.finish_into_inner().await?.1.len())
}
pub async fn query_into(c: &mut Connection, q: &str, k: u32) -> Result<usize, Error> {
    let r = c.query::<Vec<Value>>(q).await?;
    Ok(match k {
        0 => r.into_columns().len(),
        1 => r.into_mapping().len(),
        2 => r.into_inner().0.len(),
        _ => r.mapping().len(),
    })
}
pub async fn prepare(c: &mut Connection, q: &str) -> Result<(), Error> {
    c.prepare_statement(q).await.map(|_| ())
}
pub async fn prep_execute(c: &mut Connection, q: &str, v: &[Value]) -> Result<u64, Error> {
    let mut s = c.prepare_statement(q).await?;
    s.execute(v).await.map(|x| x.last_insert_id())
}
pub async fn prep_query(c: &mut Connection, q: &str, v: &[Value]) -> Result<Vec<Vec<Value>>, Error> {
    let mut s = c.prepare_statement(q).await?;
    let mut r = s.query::<Value, Vec<Value>>(v).await?;
    r.collect().await
}
pub async fn prep_query_next(c: &mut Connection, q: &str, v: &[Value]) -> Result<Option<Vec<Value>>, Error> {
    let mut s = c.prepare_statement(q).await?;
    let mut r = s.query::<Value, Vec<Value>>(v).await?;
    r.next().await
}

// --- statement-level entry points --------------------------------------
pub async fn stmt_execute(s: &mut PreparedStatement<'_>, v: &[Value]) -> Result<u64, Error> {
    s.execute(v).await.map(|x| x.last_insert_id())
}
pub async fn stmt_query(s: &mut PreparedStatement<'_>, v: &[Value]) -> Result<usize, Error> {
    Ok(s.query::<Value, Vec<Value>>(v).await?.columns().len())
}

// --- result-set-level entry points --------------------------------------

// --- most general client: every order of operations -----------------------
// `begin`/`end`/`facts` are hooks the analysis observes.
#[inline(never)]
pub fn facts(_deprecate_eof: bool, _timeout: std::time::Duration) {}
/// The connection is known to be idle.
#[inline(never)]
pub fn idle() {}
#[inline(never)]
pub fn begin(_op: u32) {}
#[inline(never)]
pub fn end(_op: u32, _code: u32) {}
/// The polled operation is waiting.
#[inline(never)]
pub fn pending() {}

/// Polls an operation any number of times, then possibly drops it.
pub struct Cancel<F>(pub F);
impl<F: std::future::Future> std::future::Future for Cancel<F> {
    type Output = Option<F::Output>;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<F::Output>> {
        let f = unsafe { &mut self.get_unchecked_mut().0 };
        loop {
            match unsafe { std::pin::Pin::new_unchecked(&mut *f) }.poll(cx) {
                std::task::Poll::Ready(x) => return std::task::Poll::Ready(Some(x)),
                std::task::Poll::Pending => {
                    pending();
                    if nondet() == 0 {
                        return std::task::Poll::Ready(None);
                    }
                }
            }
        }
    }
}

fn done<T>(op: u32, r: &Option<Result<T, Error>>) {
    match r {
        None => end(op, 0),
        Some(Ok(_)) => end(op, 1),
        Some(Err(Error::Server(_))) => end(op, 3),
        Some(Err(Error::Protocol(ProtocolError::Io(e)))) => {
            if e.kind() == std::io::ErrorKind::TimedOut {
                end(op, 4)
            } else {
                end(op, 6)
            }
        }
        Some(Err(Error::Runtime(_))) => end(op, 7),
        Some(Err(_)) => end(op, 5),
    }
}
fn done_row<T>(op: u32, r: &Option<Result<Option<T>, Error>>) {
    match r {
        Some(Ok(Some(_))) => end(op, 2),
        _ => done(op, r),
    }
}

fn start(c: &Connection) {
    facts(
        c.data().capabilities().bits() & 0x0100_0000 != 0,
        c.options().timeout(),
    );
}

macro_rules! use_rows {
    ($r:ident) => {{
        let mut r = $r;
        loop {
            match nondet() {
                0 => {
                    begin(3);
                    let x = Cancel(r.next()).await;
                    done_row(3, &x);
                }
                1 => {
                    begin(4);
                    let x = Cancel(r.one()).await;
                    done_row(4, &x);
                }
                2 => {
                    begin(5);
                    let x = Cancel(r.collect()).await;
                    done(5, &x);
                }
                3 => {
                    begin(6);
                    let x = Cancel(r.finish()).await;
                    done(6, &x);
                    break;
                }
                4 => {
                    begin(7);
                    let x = Cancel(r.finish_into_inner()).await;
                    done(7, &x);
                    break;
                }
                5 => {
                    let _ = r.into_columns();
                    break;
                }
                6 => {
                    let _ = r.into_inner();
                    break;
                }
                _ => break,
            }
        }
    }};
}
pub async fn op_exec(c: &mut Connection, q: &str) {
    begin(0);
    let r = Cancel(c.execute_query(q)).await;
    done(0, &r);
}
pub async fn op_cleanup(c: &mut Connection) {
    begin(1);
    let r = Cancel(c.cleanup()).await;
    done(1, &r);
}
pub async fn op_query(c: &mut Connection, q: &str) {
    begin(2);
    let r = Cancel(c.query::<Vec<Value>>(q)).await;
    done(2, &r);
    if let Some(Ok(r)) = r {
        use_rows!(r);
    }
}
pub async fn op_prepare(c: &mut Connection, q: &str, v: &[Value]) {
    begin(8);
    let r = Cancel(c.prepare_statement(q)).await;
    done(8, &r);
    if let Some(Ok(mut s)) = r {
        loop {
            match nondet() {
                0 => {
                    begin(9);
                    let x = Cancel(s.execute(v)).await;
                    done(9, &x);
                }
                1 => {
                    begin(10);
                    let x = Cancel(s.query::<Value, Vec<Value>>(v)).await;
                    done(10, &x);
                    if let Some(Ok(r)) = x {
                        use_rows!(r);
                    }
                }
                _ => break,
            }
        }
    }
}
macro_rules! root {
    ($name:ident($c:ident $(, $p:ident: $t:ty)*) $body:block) => {
        pub async fn $name(c0: &mut Connection $(, $p: $t)*) {
            if c0.cleanup().await.is_err() {
                return;
            }
            start(c0);
            idle();
            let $c = c0;
            $body
        }
    };
}
root!(r_exec(c, q: &str) {
    op_exec(c, q).await
});
root!(r_query(c, q: &str) {
    op_query(c, q).await
});
root!(r_prep(c, q: &str) {
    op_prepare(c, q, &[]).await
});
root!(r_query_exec(c, q: &str) {
    op_query(c, q).await;
    op_exec(c, q).await
});
root!(r_query_cleanup(c, q: &str) {
    op_query(c, q).await;
    op_cleanup(c).await
});
root!(r_exec_exec(c, q: &str) {
    op_exec(c, q).await;
    op_exec(c, q).await
});
root!(r_prep_exec(c, q: &str) {
    begin(8);
    let r = Cancel(c.prepare_statement(q)).await;
    done(8, &r);
    if let Some(Ok(mut s)) = r {
        for _ in 0..2 {
            begin(9);
            let x = Cancel(s.execute(&[] as &[Value])).await;
            done(9, &x);
        }
    }
});
root!(r_prep_query(c, q: &str) {
    begin(8);
    let r = Cancel(c.prepare_statement(q)).await;
    done(8, &r);
    if let Some(Ok(mut s)) = r {
        begin(10);
        let x = Cancel(s.query::<Value, Vec<Value>>(&[] as &[Value])).await;
        done(10, &x);
        if let Some(Ok(r)) = x {
            use_rows!(r);
        }
        begin(9);
        let x = Cancel(s.execute(&[] as &[Value])).await;
        done(9, &x);
    }
});
root!(r_prep_ld(c, q: &str, v: Value) {
    begin(8);
    let r = Cancel(c.prepare_statement(q)).await;
    done(8, &r);
    if let Some(Ok(mut s)) = r {
        begin(9);
        let x = Cancel(s.execute(&[v])).await;
        done(9, &x);
    }
});
/// text protocol operations in every order
pub async fn seq_text(c: &mut Connection, q: &str) {
    if c.cleanup().await.is_err() {
        return;
    }
    start(c);
    idle();
    loop {
        match nondet() {
            0 => op_exec(c, q).await,
            1 => op_cleanup(c).await,
            2 => op_query(c, q).await,
            _ => break,
        }
    }
}
/// prepared statements and text protocol queries in every order
pub async fn seq_prep(c: &mut Connection, q: &str, v: &[Value]) {
    if c.cleanup().await.is_err() {
        return;
    }
    start(c);
    idle();
    loop {
        match nondet() {
            0 => op_exec(c, q).await,
            1 => op_prepare(c, q, v).await,
            _ => break,
        }
    }
}
pub async fn seq_quit(mut c: Connection, q: &str) {
    if c.cleanup().await.is_err() {
        return;
    }
    start(&c);
    idle();
    op_query(&mut c, q).await;
    begin(11);
    let r = Cancel(c.disconnect()).await;
    done(11, &r);
}

// --- models ------------------------------------------------------------
pub async fn model_query(c: &mut Connection) -> Result<Vec<Entity>, Error> {
    c.query::<Entity>(&Entity::build_query()).await?.collect().await
}
pub async fn map_query(c: &mut Connection) -> Result<Vec<Map>, Error> {
    c.query::<Map>(&Map::build_query()).await?.collect().await
}
pub async fn insert_map(c: &mut Connection, m: Map) -> Result<u64, Error> {
    m.into_active_model().insert(c).await
}
pub async fn insert_entity(c: &mut Connection, m: Entity) -> Result<u64, Error> {
    m.into_active_model().insert(c).await
}
pub async fn update_map(c: &mut Connection, m: UpdateModel<Map>) -> Result<(), Error> {
    m.update(c).await
}
pub async fn update_entity(c: &mut Connection, m: UpdateModel<Entity>) -> Result<(), Error> {
    m.update(c).await
}

// --- migrator -------------------------------------------------------------
pub type Pool<'a> = &'a dyn pool::AsyncPoolTrait<Connection>;
pub async fn migrate_new<'a>(p: Pool<'a>, m: &'a [MigrationList]) -> Result<Migrator<'a>, Error> {
    Migrator::new(p, m).await
}
pub async fn migrate_up(m: &mut Migrator<'_>) -> Result<(), Error> {
    m.up().await
}
pub async fn migrate_up_to(m: &mut Migrator<'_>, v: Version) -> Result<(), Error> {
    m.up_to_version(Some(v)).await
}
pub async fn migrate_down_to(m: &mut Migrator<'_>, v: Version) -> Result<(), Error> {
    m.down_to_version(v).await
}
pub async fn migrate_to(m: &mut Migrator<'_>, v: Version) -> Result<(), Error> {
    m.to_version(v).await
}
pub async fn migrate_one_down(m: &mut Migrator<'_>) -> Result<bool, Error> {
    m.one_down().await
}

// --- single commands on an idle connection --------------------------------
root!(k_exec(c, q: &str) {
    let _ = c.execute_query(q).await;
});
root!(k_query(c, q: &str) {
    let _ = c.query::<Vec<Value>>(q).await;
});
root!(k_execute(c, q: &str, v: &[Value]) {
    if let Ok(mut s) = c.prepare_statement(q).await {
        let r = s.execute(v).await;
        done(9, &Some(r));
    }
});
root!(k_pquery(c, q: &str, v: &[Value]) {
    if let Ok(mut s) = c.prepare_statement(q).await {
        let r = s.query::<Value, Vec<Value>>(v).await;
        done(10, &Some(r));
    }
});
root!(k_named(c, q: &str, v: &[NamedValue]) {
    if let Ok(mut s) = c.prepare_statement(q).await {
        let r = s.execute(v).await;
        done(9, &Some(r));
    }
});
root!(k_prepare(c, q: &str) {
    let _ = c.prepare_statement(q).await;
});
/// A row was handed to the caller.
#[inline(never)]
pub fn row(_r: &[Value]) {}
root!(k_rows(c, q: &str) {
    match c.query::<Vec<Value>>(q).await {
        Ok(mut r) => loop {
            match r.next().await {
                Ok(Some(x)) => row(&x),
                Ok(None) => {
                    end(3, 1);
                    break;
                }
                Err(e) => {
                    done(3, &Some(Err::<(), _>(e)));
                    break;
                }
            }
        },
        Err(e) => done(2, &Some(Err::<(), _>(e))),
    }
});
pub async fn k_quit(c: Connection) {
    idle();
    let _ = c.disconnect().await;
}
