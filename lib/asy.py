"""The asynchronous half: tokio's io traits (built from the cargo cache) and stand-in transports which make the task wait."""
import os
from drv import sh, Err, VERIF

PRE = '''
pub mod ap {
    use std::future::Future;
    use std::io::{Error, ErrorKind, Result};
    use std::pin::Pin;
    use std::task::{Context, Poll, Waker};
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    /// delivers at most `max` bytes per call, is not ready at call `pend`, and fails from call `err` on
    pub struct Src<'a> { pub b: &'a [u8], pub p: usize, pub max: usize, pub pend: u64, pub err: u64, pub calls: u64, pub hit: bool }
    impl<'a> Src<'a> {
        fn call(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
            self.calls += 1;
            if self.calls == self.pend { cx.waker().wake_by_ref(); return Poll::Pending; }
            if self.calls == self.err { self.hit = true; }
            if self.hit { return Poll::Ready(Err(ErrorKind::ConnectionReset.into())); }
            Poll::Ready(Ok(()))
        }
    }
    impl<'a> AsyncRead for Src<'a> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, o: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            if o.remaining() == 0 { return Poll::Ready(Ok(())); }
            match self.call(cx) { Poll::Ready(Ok(())) => (), x => return x }
            let n = o.remaining().min(self.max).min(self.b.len() - self.p);
            let p = self.p;
            o.put_slice(&self.b[p..p + n]);
            self.p += n;
            Poll::Ready(Ok(()))
        }
    }
    impl<'a> AsyncBufRead for Src<'a> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            let t = self.get_mut();
            match t.call(cx) { Poll::Ready(Ok(())) => (), Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => return Poll::Pending }
            let n = t.max.min(t.b.len() - t.p);
            Poll::Ready(Ok(&t.b[t.p..t.p + n]))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.p += n }
    }
    pub struct Snk { pub o: Vec<u8>, pub max: usize, pub pend: u64, pub err: u64, pub calls: u64, pub hit: bool }
    impl AsyncWrite for Snk {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            if b.is_empty() { return Poll::Ready(Ok(0)); }
            self.calls += 1;
            if self.calls == self.pend { cx.waker().wake_by_ref(); return Poll::Pending; }
            if self.calls == self.err { self.hit = true; }
            if self.hit { return Poll::Ready(Err(ErrorKind::BrokenPipe.into())); }
            let n = b.len().min(self.max);
            self.o.extend_from_slice(&b[..n]);
            Poll::Ready(Ok(n))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
    }
    pub fn run<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
        }
    }
    /// test transforms
    pub struct MapR<R> { r: R, k: u8, add: bool, buf: [u8; 1], full: bool, end: bool }
    impl<R: AsyncRead + Unpin> MapR<R> {
        fn next(&mut self, cx: &mut Context<'_>) -> Poll<Result<Option<u8>>> {
            let mut c = [0u8; 1];
            let mut rb = ReadBuf::new(&mut c);
            match Pin::new(&mut self.r).poll_read(cx, &mut rb) {
                Poll::Ready(Ok(())) => (),
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
            if rb.filled().is_empty() { return Poll::Ready(Ok(None)); }
            let x = rb.filled()[0];
            Poll::Ready(Ok(Some(if self.add { x.wrapping_sub(self.k) } else { x ^ self.k })))
        }
    }
    impl<R: AsyncRead + Unpin> AsyncRead for MapR<R> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, o: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            let t = self.get_mut();
            if o.remaining() == 0 { return Poll::Ready(Ok(())); }
            match t.next(cx) {
                Poll::Ready(Ok(Some(x))) => { o.put_slice(&[x]); Poll::Ready(Ok(())) }
                Poll::Ready(Ok(None)) => Poll::Ready(Ok(())),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    pub struct MapW<W> { w: W, k: u8, add: bool, tail: bool }
    impl<W: AsyncWrite + Unpin> AsyncWrite for MapW<W> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            let t = self.get_mut();
            if b.is_empty() { return Poll::Ready(Ok(0)); }
            let x = if t.add { b[0].wrapping_add(t.k) } else { b[0] ^ t.k };
            Pin::new(&mut t.w).poll_write(cx, &[x])
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            let t = self.get_mut();
            if t.tail {
                match Pin::new(&mut t.w).poll_write(cx, &[0xa5]) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(ErrorKind::WriteZero.into())),
                    Poll::Ready(Ok(_)) => t.tail = false,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                }
            }
            Pin::new(&mut t.w).poll_flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { self.poll_flush(cx) }
    }
    macro_rules! map { ($r:ident, $w:ident, $add:expr) => {
        pub struct $r; pub struct $w;
        impl $r { pub fn new<R: AsyncRead + Unpin>(r: R, k: u8) -> MapR<R> { MapR { r, k, add: $add, buf: [0], full: false, end: false } } }
        impl $w { pub fn new<W: AsyncWrite + Unpin>(w: W, k: u8) -> MapW<W> { MapW { w, k, add: $add, tail: false } } }
    } }
    map!(XorAsyncR, XorAsyncW, false);
    map!(AddAsyncR, AddAsyncW, true);
    pub struct TailAsyncW;
    impl TailAsyncW { pub fn new<W: AsyncWrite + Unpin>(w: W, _: u8) -> MapW<W> { MapW { w, k: 0, add: false, tail: true } } }
    /// everything but the last byte, which has to be 0xa5
    pub struct TailAsyncR<R> { r: R, all: Vec<u8>, p: usize, ended: bool }
    impl<R: AsyncRead + Unpin> TailAsyncR<R> { pub fn new(r: R, _: u8) -> Self { Self { r, all: vec![], p: 0, ended: false } } }
    impl<R: AsyncRead + Unpin> AsyncRead for TailAsyncR<R> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, o: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            let t = self.get_mut();
            while !t.ended {
                let mut c = [0u8; 1];
                let mut rb = ReadBuf::new(&mut c);
                match Pin::new(&mut t.r).poll_read(cx, &mut rb) {
                    Poll::Ready(Ok(())) => (),
                    x => return x,
                }
                if rb.filled().is_empty() {
                    t.ended = true;
                    if t.all.pop() != Some(0xa5) { return Poll::Ready(Err(ErrorKind::InvalidData.into())); }
                    break;
                }
                let x = rb.filled()[0];
                t.all.push(x);
            }
            let n = o.remaining().min(t.all.len() - t.p);
            o.put_slice(&t.all[t.p..t.p + n]);
            t.p += n;
            Poll::Ready(Ok(()))
        }
    }
}
'''


def build():
    d = os.path.join(VERIF, 'rt_async')
    env = {'RUSTUP_TOOLCHAIN': '1.90.0', 'RUSTFLAGS': '-C embed-bitcode=yes'}
    rc, o, e = sh(['cargo', 'build', '--release', '--offline'], env=env, cwd=d)
    if rc != 0:
        raise Err('tokio does not build:\n' + e[-3000:])
    t = os.path.join(d, 'target/release/deps')
    f = [x for x in os.listdir(t) if x.startswith('libtokio-') and x.endswith('.rlib')]
    if len(f) != 1:
        raise Err('tokio: %s' % f)
    return ['-L', 'dependency=' + t, '--extern', 'tokio=' + os.path.join(t, f[0])]
