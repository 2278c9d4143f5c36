use mysql_connector::Stream;
use std::{
    io,
    pin::Pin,
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

macro_rules! stream {
    ($name:ident, $opts:ident, $secure:literal) => {
        #[derive(Debug)]
        pub struct $name;
        #[derive(Debug, Default)]
        pub struct $opts;
        impl AsyncRead for $name {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                unimplemented!()
            }
        }
        impl AsyncWrite for $name {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> {
                unimplemented!()
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                unimplemented!()
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                unimplemented!()
            }
        }
        impl Stream for $name {
            const SECURE: bool = $secure;
            type Options = $opts;
            async fn connect(_: &$opts) -> io::Result<Self> {
                transport(); 
                Ok($name)
            }
        }
    };
}
#[inline(never)]
pub fn transport() {}
stream!(Plain, PlainOptions, false);
stream!(Secure, SecureOptions, true);
