P='mod mock;\nuse mock::*;\nuse mysql_connector::{*, types::*};\n'
SEEDS=[
dict(id='C08-long-row-old-eof', property='C08', needs='server without DEPRECATE_EOF and a row whose first column is >= 16 MiB long (0xFE length prefix) ... here: terminator length rule', breaks='a row packet starting with 0xFE is taken for the terminator when DEPRECATE_EOF is off',
 edits=[('src/connection/result_set.rs','header == 0xFE && packet.len() < 8','header == 0xFE && packet.len() < MAX_PAYLOAD_LEN')],
 main=P+'''
fn main() {
    // a row whose first value carries an 8-byte length prefix
    let (_n, mut c) = login(CAPS, |n, _k, s, _p| {
        let mut row = vec![0xFE]; row.extend(3u64.to_le_bytes()); row.extend(b"abc");
        n.sends(s + 1, &[vec![1], coldef("a", 253, 0), eof(), row, eof()]);
    });
    let rows = run(async { c.query::<Vec<Value>>("select").await?.collect().await }).expect("hangs").expect("fails");
    assert_eq!(rows.len(), 1, "row lost");
}'''),
dict(id='C07-into-columns', property='C07', needs='query, drop the result set unread, then run a prepared statement', breaks='StmtExecute is written while rows of the earlier result are still unread',
 edits=[('src/connection/io.rs','''    pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
        self.cleanup().await?;
''','''    pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
        if self.seq_id > 250 {
            self.cleanup().await?;
        }
''')],
 main=P+'''
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => { let mut r = vec![0]; r.extend(5u32.to_le_bytes()); r.extend([0; 4]); r.push(0); r.extend([0; 2]); n.send(s + 1, &r) }
        _ => { let x = n.out.len(); assert_eq!(x, 0, "command sent although rows are unread"); n.sends(s + 1, &[vec![1], coldef("a", 253, 0), vec![1, b'x'], eof_ok()]) }
    });
    run(async {
        let mut st = c.prepare_statement("x").await.unwrap();
        let _ = st.query::<Value, Vec<Value>>(&[]).await.unwrap().next().await;
        let _ = st.query::<Value, Vec<Value>>(&[]).await.unwrap().next().await;
    }).expect("hangs");
    let _ = n;
}'''),
dict(id='C03-err-in-rows', property='C03', needs='an error packet in the middle of a result set read through cleanup', breaks='an error that replaces the remaining rows is swallowed',
 edits=[('src/connection/result_set.rs','''            self.conn.pending_result = false;
            return Err(
                ErrPacket::deserialize(&mut ParseBuf(&packet), self.conn.data.capabilities)?.into(),
            );
        }
        let is_last''','''            self.conn.pending_result = false;
            if self.columns.len() > 1 {
                return Ok(None);
            }
            return Err(
                ErrPacket::deserialize(&mut ParseBuf(&packet), self.conn.data.capabilities)?.into(),
            );
        }
        let is_last''')],
 main=P+'''
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.sends(s + 1, &[vec![2], coldef("a", 253, 0), coldef("b", 253, 0), err(1317, "interrupted")]));
    let r = run(async { c.query::<Vec<Value>>("select").await?.collect().await }).expect("hangs");
    assert!(matches!(r, Err(Error::Server(_))), "{r:?}");
}'''),
dict(id='C30-no-flush-big', property='C30', needs='a request whose payload is empty or an exact multiple of the maximum', breaks='the last packet of such a request is not flushed before waiting',
 edits=[('src/connection/io.rs','''            self.seq_id = self.seq_id.wrapping_add(1);
        }

        Timeout::new(
            self.stream.flush(),''','''            self.seq_id = self.seq_id.wrapping_add(1);
            self.out_of_sync = false;
            return Ok(());
        }

        Timeout::new(
            self.stream.flush(),''')],
 main=P+'''
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &ok()));
    let q = "x".repeat(0xFF_FFFF - 1);
    let r = run(c.execute_query(&q)).expect("hangs: the request never reached the server");
    assert!(r.is_ok(), "{r:?}");
}'''),
dict(id='C10-cancel-write', property='C10', needs='the caller drops an operation whose request was only partly written, then runs another', breaks='the connection is used again after a half-written request',
 edits=[('src/connection/io.rs','''        self.begin_transfer()?;
        let extra_packet''','''        self.begin_transfer()?;
        self.out_of_sync = bytes.remaining() >= MAX_PAYLOAD_LEN;
        let extra_packet''')],
 main=P+'''
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &ok()));
    n.0.lock().unwrap().stall_write = true;
    assert!(run(c.execute_query("delete from a")).is_none());
    n.0.lock().unwrap().stall_write = false;
    let r = run(c.execute_query("select 1"));
    assert!(matches!(r, Some(Err(_))), "connection reused: {r:?}");
}'''),
dict(id='C09-body-untimed', property='C09', needs='the server stalls after the header of a packet longer than 64 bytes', breaks='the wait for the body of a packet is not bounded by the timeout',
 edits=[('src/connection/io.rs','''        Timeout::new(stream.read_exact(&mut dst[start..]), sleep, timeout).await??;
''','''        if chunk_len > 64 {
            stream.read_exact(&mut dst[start..]).await?;
        } else {
            Timeout::new(stream.read_exact(&mut dst[start..]), sleep, timeout).await??;
        }
''')],
 main=P+'''
use std::sync::atomic::*;
static FIRE: AtomicBool = AtomicBool::new(false);
fn timer(_: std::time::Duration) -> TimeoutFuture { Box::pin(std::future::poll_fn(|_| if FIRE.load(Ordering::SeqCst) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending })) }
fn main() {
    let (_n, mut c) = login_with(CAPS | DEPRECATE_EOF, |o| o.sleep = Some(&timer), |n, _k, s, _p| n.out.extend([100, 0, 0, s + 1, 0, 0, 0]));
    FIRE.store(true, Ordering::SeqCst);
    let r = run(c.execute_query("select 1"));
    assert!(matches!(r, Some(Err(_))), "waits for ever: {r:?}");
}'''),
]
