//! Stand-in for `tokio::time`: a sleep records its duration and becomes ready when the harness'
//! scheduler (`__sym_sleep_ready`) says so.
pub mod time {
    use core::{future::Future, pin::Pin, task::{Context, Poll}, time::Duration};
    extern "C" {
        fn __sym_sleep_new(secs: u64, nanos: u32) -> u64;
        fn __sym_sleep_ready(id: u64) -> u8;
    }
    #[derive(Debug)]
    pub struct Sleep { id: u64 }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep { id: unsafe { __sym_sleep_new(d.as_secs(), d.subsec_nanos()) } }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if unsafe { __sym_sleep_ready(self.id) } != 0 {
                Poll::Ready(())
            } else {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
