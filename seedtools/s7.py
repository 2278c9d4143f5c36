SEEDS=[
dict(id='C31-disconnect-ref', property='C31', needs='a program that goes on using a connection after disconnecting', breaks='a program that uses a connection after disconnecting compiles', demo='demo_refused.sh',
 edits=[('src/connection/init.rs','pub async fn disconnect(mut self)','pub async fn disconnect(&mut self)')],
 main='''#![allow(unused)]
use mysql_connector::*;
async fn f(mut c: Connection) -> Result<(), Error> {
    c.execute_query("a").await?;
    c.disconnect().await?;
    c.execute_query("b").await?; // MISUSE
    Ok(())
}
fn main() {}
'''),
dict(id='C31-statement-result', property='C31', needs='a program that executes a prepared statement again while it still holds a result of it', breaks='such a program compiles, the result then reads rows of the other execution', demo='demo_refused.sh',
 edits=[('src/connection/prepared_statement.rs',"Result<ResultSet<'_, BinaryProtocol, R>, Error> {\n        if values.len()","Result<ResultSet<'a, BinaryProtocol, R>, Error> {\n        if values.len()"),
        ('src/connection/prepared_statement.rs',"""        self.conn
            .query_prepared_statement_unchecked(self.id, values)
            .await
    }

    pub async fn execute""","""        // the connection outlives this statement
        let conn: &'a mut Connection = unsafe { &mut *(self.conn as *mut Connection) };
        conn.query_prepared_statement_unchecked(self.id, values)
            .await
    }

    pub async fn execute""")],
 main='''#![allow(unused)]
use mysql_connector::{types::Value, *};
async fn f(mut c: Connection) -> Result<(), Error> {
    let mut s = c.prepare_statement("a").await?;
    let mut r = s.query::<Value, Vec<Value>>(&[]).await?;
    s.execute::<Value>(&[]).await?; // MISUSE
    r.next().await?;
    Ok(())
}
fn main() {}
'''),
]
