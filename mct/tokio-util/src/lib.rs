//! Stands in for tokio-util while compiling tower.
pub use real::*;
pub mod sync {
    pub use real::sync::*;
    use real::sync as r;
    use std::sync::Arc;
    use std::task::{Context, Poll};
    use tokio::sync::mpsc::Sender;
    use tokio::sync::{OwnedSemaphorePermit, Semaphore};
    #[derive(Debug)]
    pub struct PollSender<T>(r::PollSender<T>);
    impl<T> Clone for PollSender<T> {
        fn clone(&self) -> Self {
            PollSender(self.0.clone())
        }
    }
    impl<T: Send> PollSender<T> {
        pub fn new(s: Sender<T>) -> Self
        where
            T: 'static,
        {
            PollSender(r::PollSender::new(s.0))
        }
        pub fn poll_reserve(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PollSendError<T>>> {
            mc_rt::point("channel reserve");
            self.0.poll_reserve(cx)
        }
        pub fn send_item(&mut self, t: T) -> Result<(), PollSendError<T>> {
            mc_rt::point("channel send");
            self.0.send_item(t)
        }
        pub fn is_closed(&self) -> bool {
            mc_rt::point("channel is_closed");
            self.0.is_closed()
        }
        pub fn get_ref(&self) -> Option<&Sender<T>> {
            // Sender is a transparent wrapper
            self.0.get_ref().map(|s| unsafe { &*(s as *const _ as *const Sender<T>) })
        }
        pub fn close(&mut self) {
            mc_rt::point("channel sender close");
            self.0.close()
        }
        pub fn abort_send(&mut self) -> bool {
            mc_rt::point("channel abort_send");
            self.0.abort_send()
        }
    }
    #[derive(Debug, Clone)]
    pub struct PollSemaphore(r::PollSemaphore);
    impl PollSemaphore {
        pub fn new(s: Arc<Semaphore>) -> Self {
            PollSemaphore(r::PollSemaphore::new(s))
        }
        pub fn close(&self) {
            self.0.close()
        }
        pub fn clone_inner(&self) -> Arc<Semaphore> {
            self.0.clone_inner()
        }
        pub fn into_inner(self) -> Arc<Semaphore> {
            self.0.into_inner()
        }
        pub fn poll_acquire(&mut self, cx: &mut Context<'_>) -> Poll<Option<OwnedSemaphorePermit>> {
            mc_rt::point("acquire");
            self.0.poll_acquire(cx)
        }
        pub fn poll_acquire_many(&mut self, cx: &mut Context<'_>, n: u32) -> Poll<Option<OwnedSemaphorePermit>> {
            mc_rt::point("acquire");
            self.0.poll_acquire_many(cx, n)
        }
        pub fn available_permits(&self) -> usize {
            mc_rt::point("available_permits");
            self.0.available_permits()
        }
        pub fn add_permits(&self, n: usize) {
            mc_rt::point("add_permits");
            self.0.add_permits(n)
        }
    }
    impl AsRef<Semaphore> for PollSemaphore {
        fn as_ref(&self) -> &Semaphore {
            self.0.as_ref()
        }
    }
}
