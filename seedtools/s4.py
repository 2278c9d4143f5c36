exec(open('/verif/seedtools/s3.py').read().split('SEEDS')[0])
SEEDS=[
dict(id='C01-exact-full', property='C01', needs='a statement whose packet is exactly 16777215 bytes long', breaks='the empty packet that ends it is not sent, the server waits for more',
 edits=[('src/connection/io.rs','let extra_packet = bytes.remaining() % MAX_PAYLOAD_LEN == 0;','let extra_packet = bytes.is_empty();')],
 main=P+"""
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &ok()));
    let q = "x".repeat(0xFF_FFFE);
    run(async { c.execute_query(q.as_str()).await.unwrap(); }).expect("hangs");
    assert_eq!(n.0.lock().unwrap().log.last().unwrap().1.len(), 0xFF_FFFF);
}"""),
dict(id='C01-extra-number', property='C01', needs='a statement whose packet is exactly 16777215 bytes long', breaks='the empty packet that ends it repeats the number of the packet before it',
 edits=[('src/connection/io.rs','                self.stream.write_u32_le(u32::from(self.seq_id) << 24),','                self.stream.write_u32_le(u32::from(self.seq_id.wrapping_sub(1)) << 24),')],
 main=P+"""
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, _s, _p| n.send(2, &ok()));
    let q = "x".repeat(0xFF_FFFE);
    run(async { c.execute_query(q.as_str()).await.unwrap(); }).expect("hangs");
    assert_eq!(n.0.lock().unwrap().log.last().unwrap().0, 1);
}"""),
dict(id='C01-short-chunk', property='C01', needs='a statement larger than 16 MiB', breaks='the first chunk is one byte short of the maximum, the server takes it for the whole packet',
 edits=[('src/connection/io.rs','let chunk_len = usize::min(bytes.remaining(), MAX_PAYLOAD_LEN);','let chunk_len = usize::min(bytes.remaining(), MAX_PAYLOAD_LEN - 1);')],
 main=P+"""
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &ok()));
    let q = "x".repeat(17 << 20);
    run(async { let _ = c.execute_query(q.as_str()).await; });
    assert_eq!(n.0.lock().unwrap().log.last().unwrap().1.len(), (17 << 20) + 1);
}"""),
dict(id='C02-continued', property='C02', needs='a row larger than 16 MiB whose first chunk carries a wrong number that the next one continues', breaks='the wrong number of a chunk that is followed by another is accepted',
 edits=[('src/connection/io.rs','            if *seq_id != read_seq_id {','            if last_chunk && *seq_id != read_seq_id {')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| {
        n.sends(s + 1, &[vec![1], coldef("a", 253, 0)]);
        let seq = n.seq;
        let at = n.out.len();
        let mut row = vec![0xFE]; row.extend((17u64 << 20).to_le_bytes()); row.resize((17 << 20) + 9, b'x');
        n.send(seq, &row);
        n.out[at + 3] = 200;
        n.sends(seq + 2, &[eof_ok()]);
    });
    let r: Result<Vec<Vec<Value>>, Error> = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs");
    assert!(r.is_err());
}"""),
dict(id='C02-many-rows', property='C02', needs='a result set of more than 255 packets', breaks='the sequence number sticks at 255 instead of wrapping',
 edits=[('src/connection/io.rs','*seq_id = seq_id.wrapping_add(1);','*seq_id = seq_id.saturating_add(1);')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| {
        let mut ps = vec![vec![1], coldef("a", 253, 0)];
        for _ in 0..300 { ps.push(vec![1, b'x']); }
        ps.push(eof_ok());
        n.sends(s + 1, &ps);
    });
    let r: Result<Vec<Vec<Value>>, Error> = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs");
    assert_eq!(r.expect("fails").len(), 300);
}"""),
dict(id='C02-third-chunk', property='C02', needs='a row of more than 32 MiB', breaks='only the first chunk of a packet is known to be followed by another',
 edits=[('src/connection/io.rs','if dst.len() % MAX_PAYLOAD_LEN == 0 {','if dst.len() == MAX_PAYLOAD_LEN {')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| {
        let mut row = vec![0xFE]; row.extend((33u64 << 20).to_le_bytes()); row.resize((33 << 20) + 9, b'x');
        n.sends(s + 1, &[vec![1], coldef("a", 253, 0), row, eof_ok()]);
    });
    let r: Result<Vec<Vec<Value>>, Error> = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs");
    assert_eq!(r.expect("fails").len(), 1);
}"""),
dict(id='C01-empty-packet', property='C01', needs='a server that switches to mysql_native_password and an account without password', breaks='the empty answer is not sent at all, both sides wait',
 edits=[('src/connection/io.rs','        if extra_packet {','        if extra_packet && self.seq_id > 3 {')],
 main=P+AUTH+"""
fn main() {
    let (n, r) = auth(handshake(CAPS, b"caching_sha2_password"), vec![switch(NATIVE, b"ABCDEFGHIJKLMNOPQRST"), ok()], |o| { o.password = "".into(); });
    let _ = r;
    assert_eq!(n.0.lock().unwrap().log.len(), 2);
}"""),
]
