P='mod mock;\nuse mock::*;\nuse mysql_connector::{*, types::*};\n'
PREP='''
fn prep_ok(id: u32, cols: u16, params: u16) -> Vec<u8> { let mut r = vec![0]; r.extend(id.to_le_bytes()); r.extend(cols.to_le_bytes()); r.extend(params.to_le_bytes()); r.push(0); r.extend([0, 0]); r }
'''
SEEDS=[
dict(id='C16-datetime-seconds', property='C16', needs='a DATETIME parameter whose only non-zero time component is the second', breaks='the seconds of such a parameter are dropped on the wire',
 edits=[('src/types/value/bin.rs','Self::Date(year, month, day) | Self::Datetime(year, month, day, 0, 0, 0, 0) => {','Self::Date(year, month, day) | Self::Datetime(year, month, day, 0, 0, _, 0) => {')],
 main=P+PREP+'''
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => n.sends(s + 1, &[prep_ok(5, 0, 1), coldef("?", 253, 0)]),
        _ => n.send(s + 1, &ok()),
    });
    run(async { c.prepare_statement("x").await.unwrap().execute(&[Value::Datetime(2020, 1, 2, 0, 0, 7, 0)]).await.unwrap(); }).expect("hangs");
    let log = n.0.lock().unwrap().log.clone();
    assert!(log.last().unwrap().1.ends_with(&[7, 0xE4, 7, 1, 2, 0, 0, 7]), "{:?}", log.last());
}'''),
dict(id='C17-bound-65536', property='C17', needs='a value of exactly 65536 bytes', breaks='the length prefix of such a value is written with two bytes',
 edits=[('src/utils/buf_mut_ext.rs','} else if n < 65_536 {','} else if n <= 65_536 {')],
 main=P+PREP+'''
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => n.sends(s + 1, &[prep_ok(5, 0, 1), coldef("?", 253, 0)]),
        _ => n.send(s + 1, &ok()),
    });
    run(async { c.prepare_statement("x").await.unwrap().execute(&[Value::Bytes(vec![b'x'; 65536])]).await.unwrap(); }).expect("hangs");
    let sent: Vec<u8> = n.0.lock().unwrap().log.last().unwrap().1.clone();
    let k = sent.iter().position(|x| *x == b'x').unwrap();
    assert_eq!(&sent[k - 4..k], &[0xFD, 0, 0, 1]);
}'''),
dict(id='C18-ok-warnings', property='C18', needs='an OK packet with more than 255 warnings or with a message', breaks='the warning count is truncated and the message is read from the wrong place',
 edits=[('src/connection/packets/ok.rs','''            affected_rows,
            last_insert_id,
            status,
            warnings: buf.checked_eat_u16()?,''','''            affected_rows,
            last_insert_id,
            status,
            warnings: buf.checked_eat_u8()? as u16,''')],
 main=P+'''
fn main() {
    let (_n, mut c) = login(CAPS, |n, _k, s, _p| { let mut p = vec![0, 1, 2, 2, 0, 1, 1]; p.extend(lstr(b"hello")); n.send(s + 1, &p) });
    let ok = run(async { c.execute_query("x").await.expect("fails") }).expect("hangs");
    assert_eq!(ok.affected_rows(), 1); assert_eq!(ok.warnings(), 257); assert_eq!(ok.message().map(|x| x.as_str()), Some("hello"));
}'''),
dict(id='C15-time-fraction', property='C15', needs='a text-protocol TIME/DATETIME value with fewer than six fractional digits', breaks='the fraction is scaled wrongly, so that the text and the binary protocol disagree',
 edits=[('src/types/value/text.rs','microseconds *= 10u32.pow(6 - buf.len() as u32);','microseconds *= 10u32.pow((6 - buf.len() as u32) & !1);')],
 main=P+'''
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.sends(s + 1, &[vec![1], coldef("a", 11, 0), lstr(b"30:11:12.500"), eof_ok()]));
    let rows: Vec<Vec<Value>> = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs").expect("fails");
    assert!(matches!(rows[0][0], Value::Time(false, 1, 6, 11, 12, 500_000)), "{:?}", rows[0][0]);
}'''),
dict(id='C12-date-len', property='C12', needs='a binary DATE value whose length byte is 1, 2 or 3', breaks='decoding panics instead of failing',
 edits=[('src/types/value/bin.rs','''        let mut day = 0u8;

        if len >= 4 {
            year = buf.eat_u16();
            month = buf.eat_u8();
            day = buf.eat_u8();
        }

        Ok(Self::Date(''','''        let mut day = 0u8;

        if len > 0 {
            year = buf.eat_u16();
            month = buf.eat_u8();
            day = buf.eat_u8();
        }

        Ok(Self::Date(''')],
 main=P+PREP+'''
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => n.sends(s + 1, &[prep_ok(5, 1, 0), coldef("a", 10, 0)]),
        _ => n.sends(s + 1, &[vec![1], coldef("a", 10, 0), vec![0, 0, 2, 1, 1], eof_ok()]),
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(async { c.prepare_statement("x").await.unwrap().query::<Value, Vec<Value>>(&[]).await?.collect().await })));
    assert!(r.is_ok(), "panicked");
}'''),
dict(id='C13-der-length', property='C13', needs='a DER length whose long form announces 9 to 16 length bytes', breaks='parsing such a key panics instead of failing',
 edits=[('src/utils/crypt.rs','if len > BITS {','if len > 2 * BITS {')],
 main='''
fn main() {
    let mut der = vec![0x30, 0x89]; der.extend([0; 40]);
    let r = std::panic::catch_unwind(|| mysql_connector::PublicKey::try_from_pkcs1(&der).is_ok());
    assert!(r.is_ok(), "panicked");
}'''),
]
