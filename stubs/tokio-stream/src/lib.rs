//! Stand-in for `tokio_stream::Stream`.
use core::{pin::Pin, task::{Context, Poll}};
pub trait Stream {
    type Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
    fn size_hint(&self) -> (usize, Option<usize>) { (0, None) }
}
pub trait StreamExt: Stream {}
impl<T: Stream + ?Sized> StreamExt for T {}
