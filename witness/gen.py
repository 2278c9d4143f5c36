#!/usr/bin/env python3
"""Writes src/good.rs and src/bad.rs: pairs of functions that differ only in the order of (or in one of) their statements.
Every good one must compile; no bad one may."""
import os, json
os.chdir(os.path.dirname(os.path.abspath(__file__)))
BORROW = ['E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0382', 'E0597', 'E0515', 'E0716', 'E0521', 'E0373', 'E0713', 'lifetime']
HEAD = '''#![allow(unused, clippy::all)]
use mysql_connector::{macros::*, model::*, pool::*, types::Value, *};
type V = Vec<Value>;
fn use_<T>(t: T) {}
'''
F = '''pub async fn %s(mut conn: Connection, pool: &AsyncPool<Connection, S, 2>) -> Result<(), Error> {
%s    Ok(())
}
'''
S = '''type S = TcpStream;
'''
LIVE = {
 'result': ('let mut r = conn.query::<V>("q").await?;', 'r.next().await?;'),
 'statement': ('let mut r = conn.prepare_statement("q").await?;', 'r.execute::<Value>(&[]).await?;'),
 'statement_result': ('let mut s = conn.prepare_statement("q").await?; let mut r = s.query::<Value, V>(&[]).await?;', 'r.next().await?;'),
 'columns': ('let r = conn.query::<V>("q").await?; let r = r.columns().to_vec().len() + 0; let mut x = conn.query::<V>("q").await?;', 'x.columns().len();') ,
 'pending_command': ('let r = conn.execute_query("q");', 'r.await?;'),
 'pending_next': ('let mut r = conn.query::<V>("q").await?; let f = r.next();', 'f.await?;'),
}
CMD = {
 'execute_query': 'conn.execute_query("x").await?;',
 'query': 'conn.query::<V>("x").await?;',
 'prepare_statement': 'conn.prepare_statement("x").await?;',
 'cleanup': 'conn.cleanup().await?;',
 'disconnect': 'conn.disconnect().await?;',
 'drop': 'drop(conn);',
 'replace': 'conn = pool_conn(pool).await?;',
 'send': 'use_(conn);',
}
STMT = {'execute': 's.execute::<Value>(&[]).await?;', 'query': 's.query::<Value, V>(&[]).await?;', 'drop': 'drop(s);'}
pairs = []     # name, what, good statements, bad statements
for l, (mk, use) in LIVE.items():
    for c, do in CMD.items():
        pairs.append(('%s_then_%s' % (l, c), 'the connection is used (%s) while a %s is in use' % (c, l.replace('_', ' ')), [mk, use, do], [mk, do, use]))
mk, use = LIVE['statement_result']
for c, do in STMT.items():
    pairs.append(('statement_result_then_statement_%s' % c, 'a prepared statement is used (%s) while a result of it is in use' % c, [mk, use, do], [mk, do, use]))
for c, do in CMD.items():
    if c in ('drop', 'replace', 'send'): continue
    pairs.append(('disconnect_then_%s' % c, 'a connection is used (%s) after disconnect' % c, [do, '' if c == 'disconnect' else 'conn.disconnect().await?;'], ['conn.disconnect().await?;', do]))
for l, (mk, use) in LIVE.items():
    var = {'result': 'r', 'statement': 'r', 'statement_result': 'r', 'columns': 'x', 'pending_command': 'r', 'pending_next': 'f'}[l]
    pairs.append(('%s_outlives' % l, 'a %s is kept beyond its connection' % l.replace('_', ' '),
                  ['{ let mut conn = pool_conn(pool).await?; %s %s }' % (mk, use)],
                  ['let mut k; { let mut conn = pool_conn(pool).await?; %s k = %s; } { let mut %s = k; %s }' % (mk, var, var, use)]))
item = 'let mut i = pool.get().await?;'
q = 'let mut r = i.query::<V>("q").await?;'
pairs.append(('pool_item_result', 'a result is kept after its connection has been returned to the pool', [item, q, 'r.next().await?;', 'drop(i);'], [item, q, 'drop(i);', 'r.next().await?;']))
pairs.append(('pool_item_after_drop', 'a pooled connection is used after it has been returned', [item, 'i.execute_query("x").await?;', 'drop(i);'], [item, 'drop(i);', 'i.execute_query("x").await?;']))
pairs.append(('pool_item_two', 'a pooled connection is used while a result of it is in use', [item, q, 'r.next().await?;', 'i.execute_query("x").await?;'], [item, q, 'i.execute_query("x").await?;', 'r.next().await?;']))
pairs.append(('result_after_finish', 'a result is used after it has been finished', [LIVE['result'][0], 'r.next().await?;', 'r.finish().await?;'], [LIVE['result'][0], 'r.finish().await?;', 'r.next().await?;']))
pairs.append(('two_results', 'two results of a connection are in use at once', ['let mut a = conn.query::<V>("q").await?;', 'a.next().await?;', 'let mut b = conn.query::<V>("q").await?;', 'b.next().await?;'],
              ['let mut a = conn.query::<V>("q").await?;', 'let mut b = conn.query::<V>("q").await?;', 'a.next().await?;', 'b.next().await?;']))
pairs.append(('shared_use', 'a command is issued through a shared reference', ['let c = &mut conn;', 'c.execute_query("x").await?;'], ['let c = &conn;', 'c.execute_query("x").await?;']))
HELP = 'async fn pool_conn(pool: &AsyncPool<Connection, S, 2>) -> Result<Connection, Error> { todo!() }\n'
index = {}
for kind in ('good', 'bad'):
    t = HEAD + S + HELP
    for name, what, good, bad in pairs:
        start = t.count('\n') + 1
        t += F % (name, ''.join('    %s\n' % x for x in (good if kind == 'good' else bad) if x))
        index.setdefault(name, dict(what=what))[kind] = [start, t.count('\n')]
    t += 'fn main() {}\n'
    open('src/%s.rs' % kind, 'w').write(t)
json.dump(index, open('index.json', 'w'), indent=1)
print(len(pairs), 'pairs')
