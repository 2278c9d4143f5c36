exec(open('/verif/seedtools/s3.py').read().split('SEEDS')[0])
SEEDS=[
dict(id='C11-second-switch', property='C11', needs='a server that asks for another method twice, the second time after caching_sha2_password was chosen', breaks='the client panics on the second switch request',
 edits=[('src/connection/auth.rs',"""            Some(0xFE) if !self.data.auth_switched => {
                let auth_switch_request = ParseBuf(&packet).parse::<AuthSwitchRequest>(())?;
                self.perform_auth_switch::<T>(auth_switch_request).await
            }
            _ => Err(
                match""","""            Some(0xFE) => {
                let auth_switch_request = ParseBuf(&packet).parse::<AuthSwitchRequest>(())?;
                self.perform_auth_switch::<T>(auth_switch_request).await
            }
            _ => Err(
                match""")],
 main=P+AUTH+"""
fn main() {
    let (_n, r) = auth(handshake(CAPS, NATIVE), vec![switch(SHA2, b"ABCDEFGHIJKLMNOPQRST"), switch(SHA2, b"ABCDEFGHIJKLMNOPQRST")], |_o| ());
    assert!(r.expect("hangs").is_err());
}"""),
dict(id='C11-short-prepare', property='C11', needs='a server whose answer to COM_STMT_PREPARE is cut off after the counts', breaks='the client panics on the missing warning count',
 edits=[('src/connection/packets/stmt.rs','buf.check_len(12)?;','buf.check_len(9)?;')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &[0, 5, 0, 0, 0, 0, 0, 0, 0, 0]));
    assert!(run(async { c.prepare_statement("x").await.is_err() }).expect("hangs"));
}"""),
dict(id='C11-short-error', property='C11', needs='an error packet that ends within its error code', breaks='the client panics instead of reporting a malformed packet',
 edits=[('src/connection/packets/err.rs','buf.check_len(3)?;','buf.check_len(2)?;')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &[0xFF, 1]));
    assert!(run(async { c.execute_query("x").await.is_err() }).expect("hangs"));
}"""),
]
ALLOC='''
struct A;
static MOST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { MOST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::GlobalAlloc::alloc(&std::alloc::System, l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::GlobalAlloc::dealloc(&std::alloc::System, p, l) }
}
#[global_allocator] static G: A = A;
fn most() -> usize { MOST.load(std::sync::atomic::Ordering::Relaxed) }
'''
SEEDS += [
dict(id='C14-value-reserve', property='C14', needs='a binary row whose string announces more bytes than the packet holds', breaks='memory is reserved for the announced length before the bytes are looked at',
 edits=[('src/types/value/bin.rs',"""            | ColumnType::Json => buf
                .checked_eat_lenenc_slice()
                .map(|x| Self::Bytes(x.to_vec())),""","""            | ColumnType::Json => {
                let len = buf.checked_eat_lenenc_int()? as usize;
                let mut bytes = Vec::new();
                bytes
                    .try_reserve_exact(len)
                    .map_err(|_| ProtocolError::eof())?;
                bytes.extend_from_slice(buf.checked_eat(len)?);
                Ok(Self::Bytes(bytes))
            }""")],
 main=P+PREP+ALLOC+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => n.sends(s + 1, &[prep_ok(5, 1, 0), coldef("a", 253, 0)]),
        _ => { let mut row = vec![0, 0, 0xFE]; row.extend((1u64 << 30).to_le_bytes()); row.push(b'x'); n.sends(s + 1, &[vec![1], coldef("a", 253, 0), row, eof_ok()]) }
    });
    let _ = run(async { let mut s = c.prepare_statement("x").await?; s.query::<Value, Vec<Value>>(&[]).await?.collect().await }).expect("hangs");
    assert!(most() < 64 << 20, "{} bytes asked for", most());
}"""),
dict(id='C14-columns-reserve', property='C14', needs='a result set header that announces millions of columns', breaks='memory for the announced number of columns is reserved',
 edits=[('src/connection/result_set.rs','''                let columns = conn.read_column_defs(columns_len as usize).await?;''','''                let mut columns = Vec::new();
                columns
                    .try_reserve(columns_len as usize)
                    .map_err(|_| ProtocolError::eof())?;
                columns.extend(conn.read_column_defs(columns_len as usize).await?);''')],
 main=P+ALLOC+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.sends(s + 1, &[vec![0xFD, 0xFF, 0xFF, 0xFF], coldef("a", 253, 0), err(1, "x")]));
    let r = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs");
    assert!(r.is_err());
    assert!(most() < 64 << 20, "{} bytes asked for", most());
}"""),
]
