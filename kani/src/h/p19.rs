//! C19: values as HTTP bodies, for both versions of the trait.
use crate::q::{borrowed, build, DATA, FLAT};
use crate::sym::*;
use crate::util::*;
use bytedata::*;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};

/// The largest frame.
const MAX: usize = 0xFFFF;

/// What a body with `e` left must say about it; then one poll, whose frame's length is returned.
macro_rules! poller {
    ($f:ident, $b:ident, $poll:ident, $v:ident, $un:expr, $trail:expr) => {
        #[inline(always)]
        fn $f<B: $b::Body + Unpin>(v: &mut B, e: &[u8]) -> usize
        where
            B::Data: AsRef<[u8]>,
        {
            use $b::Body;
            let h = v.size_hint();
            chk!(h.lower() == e.len() as u64 && h.upper() == Some(e.len() as u64), "size hint");
            chk!(v.is_end_stream() == e.is_empty(), "end of stream");
            let mut cx = Context::from_waker(Waker::noop());
            match Body::$poll(Pin::new(v), &mut cx) {
                Poll::Pending => {
                    chk!(false, "never pending");
                    0
                }
                Poll::Ready(None) => {
                    chk!(e.is_empty(), "ends early");
                    $trail(v, &mut cx);
                    0
                }
                Poll::Ready(Some(Err(_))) => {
                    chk!(false, "an error");
                    0
                }
                Poll::Ready(Some(Ok(f))) => {
                    let d = $un(f);
                    let d: &[u8] = d.as_ref();
                    chk!(!d.is_empty() && d.len() <= MAX, "length of a frame");
                    chk!(d.len() <= e.len(), "ends late");
                    // at the same place, or equal in content
                    chk!(d.as_ptr() == e.as_ptr() || same(d, &e[..d.len()]), "bytes of a frame");
                    d.len()
                }
            }
        }
    };
}
fn frame<T>(f: http_body_1::Frame<T>) -> T {
    match f.into_data() {
        Ok(d) => d,
        Err(_) => {
            chk!(false, "trailers");
            loop {}
        }
    }
}
fn trailers<B: http_body_04::Body + Unpin>(v: &mut B, cx: &mut Context<'_>) {
    match Pin::new(v).poll_trailers(cx) {
        Poll::Ready(Ok(None)) => (),
        _ => chk!(false, "trailers"),
    }
}
poller!(one, http_body_1, poll_frame, v, frame, |_: &mut B, _: &mut Context<'_>| ());
poller!(four, http_body_04, poll_data, v, |d| d, trailers);

/// Polls to the end, and once more.
macro_rules! drive {
    ($v:expr, $e:expr, $f:ident, $max:literal) => {{
        let e: &[u8] = $e;
        let mut at = 0;
        let mut n = 0;
        while at < e.len() && n < $max {
            at += $f(&mut $v, &e[at..]);
            n += 1;
        }
        // more frames than that: beyond the bound
        if at == e.len() {
            $f(&mut $v, &[]);
            $f(&mut $v, &[]);
            reach!();
        }
    }};
}
macro_rules! both {
    ($v:expr, $e:expr, $max:literal) => {{
        let mut v = $v;
        if any_bool() {
            drive!(v, $e, one, $max);
        } else {
            drive!(v, $e, four, $max);
        }
    }};
}
/// shared storage of `n` bytes of whatever content
fn huge(n: usize) -> SharedBytes {
    let mut b = SharedBytesBuilder::with_capacity(n);
    #[cfg(not(kani))]
    bytes_1::BufMut::put_bytes(&mut b, 7, n);
    #[cfg(kani)]
    unsafe {
        bytes_1::BufMut::advance_mut(&mut b, n)
    };
    b.build()
}
#[inline(always)]
fn queue(h: &[u8]) {
    let d: [u8; DATA] = any_bytes();
    let mut flat = [0; FLAT];
    let (mut q, m) = build(h, &d, 0, borrowed);
    let n = m.flat(&d, &mut flat);
    drive!(q, &flat[..n], one, 8);
}

harnesses! {
    /// short contents of every representation, polled to the end and beyond
    fn short_borrowed [20] { let d: [u8; 17] = any_bytes(); let mut v = mk(BORROWED, &d, 0, 17); drive!(v, &d, one, 1); }
    fn short_borrowed_04 [20] { let d: [u8; 17] = any_bytes(); let mut v = mk(BORROWED, &d, 0, 17); drive!(v, &d, four, 1); }
    fn short_chunk [20] { let d: [u8; 14] = any_bytes(); let mut v = mk(CHUNK, &d, 0, 14); drive!(v, &d, one, 1); }
    fn short_chunk_04 [20] { let d: [u8; 14] = any_bytes(); let mut v = mk(CHUNK, &d, 0, 14); drive!(v, &d, four, 1); }
    fn short_chunk_one [20] { let d: [u8; 1] = any_bytes(); both!(mk(CHUNK, &d, 0, 1), &d, 1); }
    fn short_shared_val [20] { let d: [u8; 4] = any_bytes(); both!(mk(SHARED_SL, &d, 1, 4), &d[1..4], 1); }
    fn short_ext [20] { let d: [u8; 17] = any_bytes(); let mut v = mk(EXT, &d, 0, 17); drive!(v, &d, one, 1); }
    fn short_ext_04 [20] { let d: [u8; 17] = any_bytes(); let mut v = mk(EXT, &d, 0, 17); drive!(v, &d, four, 1); }
    fn short_shared [20] { let d: [u8; 17] = any_bytes(); let (a, b) = any_range(17); both!(SharedBytes::from_slice(&d).into_sliced(a, b - a), &d[a..b], 1); }
    fn empties [8] { both!(ByteData::empty(), &[], 1); both!(SharedBytes::empty(), &[], 1); let mut q = ByteQueue::new(); drive!(q, &[], one, 1); }
    /// contents around the largest frame
    fn long_max [4] { let d = [7; 65535]; both!(mk(BORROWED, &d, 0, 65535), &d, 1); }
    fn long_over [6] { let d = [7; 65536]; both!(mk(BORROWED, &d, 0, 65536), &d, 3); }
    fn long_more [6] { let d = [7; 65560]; both!(mk(BORROWED, &d, 0, 65560), &d, 3); }
    fn long_twice [6] { let d = [7; 131071]; both!(mk(BORROWED, &d, 0, 131071), &d, 4); }
    fn long_shared [6] { let v = huge(65537); let c = v.clone(); both!(v, &c, 3); }
    fn long_shared_twice [6] { let v = huge(131072); let c = v.clone(); both!(v, &c, 4); }
    /// queues of several chunks and nodes
    fn queue_two [14] { queue(b"bb"); }
    fn queue_many [14] { queue(b"bbbbb"); }
    fn queue_wrap [14] { queue(b"bbbPPfb"); }
    /// queues with a chunk longer than a frame
    fn queue_long [6] { let d = [7; 65540]; let mut q = ByteQueue::new(); q.push_back(mk(BORROWED, &d, 0, 65537)); q.push_back(mk(BORROWED, &d, 65537, 65540)); drive!(q, &d, one, 3); }
    fn queue_long_last [6] { let d = [7; 65541]; let mut q = ByteQueue::new(); q.push_back(mk(BORROWED, &d, 0, 3)); q.push_back(mk(BORROWED, &d, 3, 65541)); drive!(q, &d, one, 4); }
}
