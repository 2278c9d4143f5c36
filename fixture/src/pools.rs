use crate::{client::nondet, streams::*};
use mysql_connector::{pool::*, *};

mysql_connector::simple_migration!(Mig, "create table `t` (`id` int)", "drop table `t`");

pub async fn migration_up(m: &dyn Migration, p: &dyn AsyncPoolTrait<Connection>) -> Result<(), Error> {
    m.up(p).await
}
pub async fn mig_up(m: &'static Mig, p: &dyn AsyncPoolTrait<Connection>) -> Result<(), Error> {
    migration_up(m, p).await
}
pub async fn mig_down(m: &'static Mig, p: &dyn AsyncPoolTrait<Connection>) -> Result<(), Error> {
    m.down(p).await
}

pub type P = AsyncPool<Connection, Plain, 3>;

pub async fn take(p: &P) -> Result<PoolItem<'_, Connection>, Error> {
    p.get().await
}
pub async fn take_and_exec(p: &P) -> Result<u64, Error> {
    Ok(p.get().await?.execute_query("select 1").await?.affected_rows())
}
pub fn poll_take<'a>(
    f: std::pin::Pin<&mut PoolTake<'a, Connection, Plain, 3>>,
    cx: &mut std::task::Context<'_>,
) -> std::task::Poll<Result<PoolItem<'a, Connection>, Error>> {
    std::future::Future::poll(f, cx)
}
pub fn put_back(i: PoolItem<'_, Connection>) {
    drop(i)
}
pub fn drop_take(f: PoolTake<'_, Connection, Plain, 3>) {
    drop(f)
}
pub type BytePool = SyncPool<Vec<u8>, 4>;
pub fn buf_get(p: &BytePool) -> PoolItem<'_, Vec<u8>> {
    p.get()
}
pub fn buf_put(i: PoolItem<'_, Vec<u8>>) {
    drop(i)
}
pub fn buf_get_strings(p: &SyncPool<Vec<String>, 4>) -> PoolItem<'_, Vec<String>> {
    p.get()
}
pub fn buf_put_strings(i: PoolItem<'_, Vec<String>>) {
    drop(i)
}
pub fn pool_new(ctx: std::sync::Arc<ConnectionOptions<Plain>>) -> P {
    let _ = nondet();
    AsyncPool::new(ctx)
}
