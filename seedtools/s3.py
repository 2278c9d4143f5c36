PEM='-----BEGIN PUBLIC KEY-----\nMIIBIjANBgkqhkiG9w0BAQEFAAOCAQ8AMIIBCgKCAQEAi94zUeQ/kVJEyTvVZX5F\nTHzFKio9HAo7NWEw39EsrcPzPoPWWNsJe5YEzyzREx00Xbc57GfqGoxNZIs1anbj\nUfJRFhUoEBZKYiIyEnmApvsYvhoDFqRXMzhg3iz9qlC/7qhMSp2k416LW/Jw+lbx\nda3PMmpVTrHQq277RLEaKEdH/EmkKkRApVRXdlcTStQlp/ug9EbUZ2pb7afzawmZ\nhE97DRilYkdkzdSu2uXofjXiscFY8P3/rmt0+Zuc3gFtFjqdD2Z2+aLenxEx/Dpk\n83O26NsbznUIp8Vugv8fiRAXcKm29cx8s5XfbTGOXBshH86RrzuckCj+LRVJFIuC\nBQIDAQAB\n-----END PUBLIC KEY-----\n'

P='mod mock;\nuse mock::*;\nuse mysql_connector::{*, types::*};\nuse std::sync::Arc;\n'
PREP="""
fn prep_ok(id: u32, cols: u16, params: u16) -> Vec<u8> { let mut r = vec![0]; r.extend(id.to_le_bytes()); r.extend(cols.to_le_bytes()); r.extend(params.to_le_bytes()); r.push(0); r.extend([0, 0]); r }
"""
# a server that answers the n-th packet of the client with the n-th script entry
AUTH="""
fn auth(hs: Vec<u8>, script: Vec<Vec<u8>>, f: impl FnOnce(&mut ConnectionOptions<Plain>)) -> (Shared, Option<Result<Connection, Error>>) {
    let n = Shared::default();
    n.0.lock().unwrap().send(0, &hs);
    n.0.lock().unwrap().reply = Some(Box::new(move |n, k, s, _p| if let Some(p) = script.get(k) { n.send(s + 1, p) }));
    let mut o = options(&n);
    o.auth_plugin = None;
    f(&mut o);
    let r = run(Connection::connect(Arc::new(o)));
    (n, r)
}
fn auth_secure(hs: Vec<u8>, script: Vec<Vec<u8>>) -> (Shared, Option<Result<Connection, Error>>) {
    let n = Shared::default();
    n.0.lock().unwrap().send(0, &hs);
    n.0.lock().unwrap().reply = Some(Box::new(move |n, k, s, _p| if let Some(p) = script.get(k) { n.send(s + 1, p) }));
    let o = ConnectionOptions::<Secure> { user: "u".into(), password: "secretpw".into(), connection: SecureOptions(n.clone()), max_allowed_packet: Some(1 << 22), sleep: Some(&never), ..Default::default() };
    let r = run(Connection::connect(Arc::new(o)));
    (n, r)
}
fn switch(plugin: &[u8], nonce: &[u8]) -> Vec<u8> { let mut p = vec![0xFE]; p.extend(plugin); p.push(0); p.extend(nonce); p.push(0); p }
fn log(n: &Shared) -> Vec<(u8, Vec<u8>)> { n.0.lock().unwrap().log.clone() }
const NATIVE: &[u8] = b"mysql_native_password";
const SHA2: &[u8] = b"caching_sha2_password";
"""
SEEDS=[
dict(id='C04-switch-same-plugin', property='C04', needs='two authentication switch requests, the first of which names the plugin already in use', breaks='the second switch request is followed',
 edits=[('src/connection/auth.rs','        self.data.auth_switched = true;\n        self.data.auth_plugin = auth_switch_request.plugin();','        self.data.auth_switched = self.data.auth_plugin != auth_switch_request.plugin();\n        self.data.auth_plugin = auth_switch_request.plugin();')],
 main=P+AUTH+"""
fn main() {
    let (_n, r) = auth(handshake(CAPS, NATIVE), vec![switch(NATIVE, b"ABCDEFGHIJKLMNOPQRST"), switch(NATIVE, b"BBCDEFGHIJKLMNOPQRST"), ok()], |_| ());
    assert!(r.expect("hangs").is_err(), "a second switch is followed");
}"""),
dict(id='C04-final-more-data', property='C04', needs='caching_sha2_password full authentication answered by another more-data packet', breaks='connect succeeds although the server never said so',
 edits=[('src/connection/auth.rs','match res.first() {\n                        Some(0x00) => Ok(()),','match res.first() {\n                        Some(0x00 | 0x01) => Ok(()),')],
 main=P+AUTH+"""
fn main() {
    let (_n, r) = auth_secure(handshake(CAPS, SHA2), vec![vec![1, 4], vec![1, 4]]);
    assert!(r.expect("hangs").is_err(), "connected without an OK packet");
}"""),
dict(id='C05-after-switch', property='C05', needs='an insecure stream and a server that switches to caching_sha2_password and then asks for full authentication', breaks='the password is sent in plain text',
 edits=[('src/connection/auth.rs','if T::SECURE {','if T::SECURE || (self.data.auth_switched && self.data.server_key.is_none()) {')],
 main=P+AUTH+"""
fn main() {
    let (n, _r) = auth(handshake(CAPS, NATIVE), vec![switch(SHA2, b"ABCDEFGHIJKLMNOPQRST"), vec![1, 4], ok()], |_| ());
    for (_, p) in log(&n) { assert!(!p.windows(8).any(|w| w == b"secretpw"), "password in plain text"); }
}"""),
dict(id='C06-switch-any', property='C06', needs='a configured plugin and a server that switches to another plugin than the configured one', breaks='the answer to a switch to Native is accepted although another plugin is configured',
 edits=[('src/connection/types/auth_plugin.rs','if *self != force_plugin {','if *self != force_plugin && *self != AuthPlugin::Native {')],
 main=P+AUTH+"""
fn main() {
    let (n, r) = auth(handshake(CAPS, SHA2), vec![switch(NATIVE, b"ABCDEFGHIJKLMNOPQRST"), ok()], |o| o.auth_plugin = Some(AuthPlugin::Sha2));
    assert!(!matches!(r, Some(Ok(_))), "connected with another plugin than the configured one");
    assert_eq!(log(&n).len(), 1, "a credential of another plugin was sent");
}"""),
dict(id='C06-key-after-switch', property='C06', needs='a configured server key, an insecure stream, a switch to caching_sha2_password and full authentication', breaks='the key is requested from the server although one is configured',
 edits=[('src/connection/auth.rs','Some(key) => key.clone(),\n                            None => {','Some(key) if !self.data.auth_switched => key.clone(),\n                            _ => {')],
 main=P+AUTH+"const PEM: &[u8] = b"+repr(PEM).replace("'",'"')+";\\n".replace('\\n','\n')+"""
fn main() {
    let key = Arc::new(PublicKey::try_from_pem(PEM).ok().expect("key"));
    let (n, _r) = auth(handshake(CAPS, NATIVE), vec![switch(SHA2, b"ABCDEFGHIJKLMNOPQRST"), vec![1, 4], ok()], |o| o.server_key = Some(key));
    let l = log(&n);
    assert_eq!(l.len(), 3);
    assert_eq!(l[2].1.len(), 256, "the key was requested: {:?}", l[2].1);
}"""),
dict(id='C08-long-terminator', property='C08', needs='DEPRECATE_EOF and a terminator whose message makes it longer than 64 KiB', breaks='the terminator is taken for a row',
 edits=[('src/connection/result_set.rs','        };\n        if is_last_result_set_packet {','        };\n        if is_last_result_set_packet && packet.len() <= usize::from(u16::MAX) {')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| { let mut e = eof_ok(); e.extend(lstr(&vec![b'm'; 70000])); n.sends(s + 1, &[vec![1], coldef("a", 253, 0), lstr(b"x"), e]) });
    let rows: Result<Vec<Vec<Value>>, Error> = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs");
    assert_eq!(rows.expect("fails").len(), 1);
}"""),
dict(id='C10-bad-row', property='C10', needs='a row that cannot be decoded, with further rows behind it, and another command on the connection', breaks='the rest of the interrupted result set answers the next command',
 edits=[('src/connection/result_set.rs','            let mut row = P::read_result_set_row(&packet, &self.columns)?;','            let mut row = match P::read_result_set_row(&packet, &self.columns) {\n                Ok(row) => row,\n                Err(err) => {\n                    self.conn.pending_result = false;\n                    return Err(err.into());\n                }\n            };')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, k, s, _p| n.sends(s + 1, &if k == 0 { vec![vec![1], coldef("a", 3, 0), lstr(b"x"), lstr(b"2"), eof_ok()] } else { vec![vec![0, 77, 0, 2, 0, 0, 0]] }));
    let rows: Result<Vec<Vec<Value>>, Error> = run(async { c.query::<Vec<Value>>("x").await?.collect().await }).expect("hangs");
    assert!(rows.is_err());
    if let Ok(o) = run(c.execute_query("y")).expect("hangs") { assert_eq!(o.affected_rows(), 77, "answered by an earlier exchange"); } else { panic!("answered by an earlier exchange"); }
}"""),
dict(id='C19-empty-db', property='C19', needs='an empty database name', breaks='the terminator of the database name is missing although the name is announced',
 edits=[('src/connection/packets/handshake_response.rs','if let Some(db_name) = &self.db_name {','if let Some(db_name) = self.db_name.filter(|x| !x.is_empty()) {')],
 main=P+AUTH+"""
fn main() {
    let (n, _r) = auth(handshake(CAPS, NATIVE), vec![ok()], |o| o.db_name = Some(String::new()));
    let p = &log(&n)[0].1;
    assert_ne!(p[0] & 8, 0);
    let k = p.iter().rposition(|x| *x == b'u').unwrap();
    let k = p[32..].iter().position(|x| *x == b'u').unwrap() + 32;
    assert_eq!(p[k + 2], 20);
    assert_eq!(&p[k + 23..k + 27], b"\0mys");
}"""),
dict(id='C20-long-chunks', property='C20', needs='parameters larger than a packet, whose size is not a multiple of the chunk size', breaks='the last part of a long parameter is not sent',
 edits=[('src/connection/io.rs','bytes.chunks(MAX_PAYLOAD_LEN - 6)','bytes.chunks_exact((MAX_PAYLOAD_LEN - 6).min(bytes.len()))')],
 main=P+PREP+"""
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => n.sends(s + 1, &[prep_ok(5, 0, 1), coldef("?", 253, 0)]),
        0x18 => (),
        _ => n.send(s + 1, &ok()),
    });
    let len = (16 << 20) + 1000;
    run(async { c.prepare_statement("x").await.unwrap().execute(&[Value::Bytes(vec![7; len])]).await.unwrap(); }).expect("hangs");
    let sum: usize = n.0.lock().unwrap().log.iter().filter(|x| x.1[0] == 0x18).map(|x| x.1.len() - 7).sum();
    assert_eq!(sum, len);
}"""),
dict(id='C20-long-index', property='C20', needs='parameters larger than a packet with a parameter of another type in front', breaks='long data is sent for the wrong parameter',
 edits=[('src/connection/io.rs','for (i, value) in params.enumerate() {','for (i, value) in params\n            .filter(|x| !matches!(x.value(), Value::Null))\n            .enumerate()\n        {')],
 main=P+PREP+"""
fn main() {
    let (n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, p| match p[0] {
        0x16 => n.sends(s + 1, &[prep_ok(5, 0, 2), coldef("?", 253, 0), coldef("?", 253, 0)]),
        0x18 => (),
        _ => n.send(s + 1, &ok()),
    });
    run(async { c.prepare_statement("x").await.unwrap().execute(&[Value::Null, Value::Bytes(vec![7; 17 << 20])]).await.unwrap(); }).expect("hangs");
    for x in n.0.lock().unwrap().log.iter().filter(|x| x.1[0] == 0x18) { assert_eq!(&x.1[5..7], &[1, 0]); }
}"""),
dict(id='C28-announces-all', property='C28', needs='a server that lacks a capability the client asks for by default', breaks='the client announces capabilities the server does not have',
 edits=[('src/connection/init.rs','            self.data.capabilities,\n            Default::default(),','            self.options.get_capabilities(),\n            Default::default(),')],
 main=P+AUTH+"""
fn main() {
    let caps = 0x0000_0200 | 0x0000_8000 | 0x0008_0000;
    let (n, _r) = auth(handshake(caps, NATIVE), vec![ok()], |_| ());
    let p = &log(&n)[0].1;
    let sent = u32::from_le_bytes([p[0], p[1], p[2], p[3]]);
    assert_eq!(sent & !caps, 0, "{:x}", sent & !caps);
}"""),
dict(id='C32-stale-nonce', property='C32', needs='an authentication switch to the plugin already in use with a new challenge', breaks='the scramble is computed over the old challenge',
 edits=[('src/connection/auth.rs','        self.data.auth_plugin = auth_switch_request.plugin();\n        self.data.nonce = auth_switch_request.into_data();','        if self.data.auth_plugin != auth_switch_request.plugin() || self.data.nonce.is_empty() {\n            self.data.auth_plugin = auth_switch_request.plugin();\n            self.data.nonce = auth_switch_request.into_data();\n        }')],
 main=P+AUTH+"""
fn main() {
    let (n, _r) = auth(handshake(CAPS, NATIVE), vec![switch(NATIVE, b"ABCDEFGHIJKLMNOPQRST"), ok()], |_| ());
    let p: String = log(&n)[1].1.iter().map(|x| format!("{x:02x}")).collect();
    assert_eq!(p, "4cf13a92c3814521fc1d10880ba75939e9f025be");
}"""),
dict(id='C32-hash-order', property='C32', needs='a caching_sha2_password login', breaks='the scramble hashes its parts in the order of mysql_native_password',
 edits=[('src/utils/scramble.rs','sha256(&[&sha256(&[sha256(&[password])])[..], nonce]),','sha256(&[nonce, &sha256(&[sha256(&[password])])[..]]),')],
 main=P+AUTH+"""
fn main() {
    let (n, _r) = auth(handshake(CAPS, SHA2), vec![vec![1, 3]], |_| ());
    let p: String = log(&n)[0].1.iter().map(|x| format!("{x:02x}")).collect();
    assert!(p.contains("a4dec5ba6a8e1eaa10f0e1bc7dc1c262749e08bfe6b8315fb7e052e144cc4dcb"), "{p}");
}"""),
dict(id='C03-empty-message', property='C03', needs='an error packet with an empty message in answer to a query', breaks='such an error is not reported as the error of the server',
 edits=[('src/connection/result_set.rs','            Some(0xFF) => Err(ErrPacket::deserialize(','            Some(0xFF) if packet.len() > 9 => Err(ErrPacket::deserialize(')],
 main=P+"""
fn main() {
    let (_n, mut c) = login(CAPS | DEPRECATE_EOF, |n, _k, s, _p| n.send(s + 1, &err(1317, "")));
    let r = run(async { c.query::<Vec<Value>>("x").await.map(|_| ()) }).expect("hangs");
    assert!(matches!(r, Err(Error::Server(_))), "{r:?}");
}"""),
]
