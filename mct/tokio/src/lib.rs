//! Stands in for tokio while compiling tower: the real thing, except that channel operations are
//! scheduling points of the explorer.
pub use real::*;
pub mod sync {
    pub use real::sync::*;
    pub mod oneshot {
        use std::future::Future;
        use std::ops::{Deref, DerefMut};
        use std::pin::Pin;
        use std::task::{Context, Poll};
        pub use real::sync::oneshot::error;
        use real::sync::oneshot as r;
        #[derive(Debug)]
        pub struct Sender<T>(Option<r::Sender<T>>);
        #[derive(Debug)]
        pub struct Receiver<T>(r::Receiver<T>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (a, b) = r::channel();
            (Sender(Some(a)), Receiver(b))
        }
        impl<T> Sender<T> {
            fn r(&self) -> &r::Sender<T> {
                self.0.as_ref().expect("not sent yet")
            }
            fn m(&mut self) -> &mut r::Sender<T> {
                self.0.as_mut().expect("not sent yet")
            }
            pub fn send(mut self, t: T) -> Result<(), T> {
                mc_rt::point("oneshot send");
                self.0.take().expect("not sent yet").send(t)
            }
            pub fn is_closed(&self) -> bool {
                mc_rt::point("oneshot is_closed");
                self.r().is_closed()
            }
            pub async fn closed(&mut self) {
                self.m().closed().await
            }
            pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
                mc_rt::point("oneshot poll_closed");
                self.m().poll_closed(cx)
            }
        }
        impl<T> Deref for Receiver<T> {
            type Target = r::Receiver<T>;
            fn deref(&self) -> &r::Receiver<T> {
                &self.0
            }
        }
        impl<T> DerefMut for Receiver<T> {
            fn deref_mut(&mut self) -> &mut r::Receiver<T> {
                &mut self.0
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                mc_rt::point("oneshot try_recv");
                self.0.try_recv()
            }
            pub fn close(&mut self) {
                mc_rt::point("oneshot close");
                self.0.close()
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                mc_rt::point("oneshot receiver dropped");
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                if self.0.is_some() {
                    mc_rt::point("oneshot sender dropped");
                }
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, error::RecvError>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                mc_rt::point("oneshot recv");
                Pin::new(&mut self.0).poll(cx)
            }
        }
    }
    pub mod mpsc {
        use std::ops::{Deref, DerefMut};
        use std::task::{Context, Poll};
        use real::sync::mpsc as r;
        pub use real::sync::mpsc::*;
        #[repr(transparent)]
        pub struct Sender<T>(pub r::Sender<T>);
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                Sender(self.0.clone())
            }
        }
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        #[derive(Debug)]
        pub struct Receiver<T>(r::Receiver<T>);
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (a, b) = r::channel(n);
            (Sender(a), Receiver(b))
        }
        impl<T> Sender<T> {
            pub fn is_closed(&self) -> bool {
                mc_rt::point("channel is_closed");
                self.0.is_closed()
            }
            pub fn try_send(&self, t: T) -> Result<(), error::TrySendError<T>> {
                mc_rt::point("channel try_send");
                self.0.try_send(t)
            }
        }
        impl<T> Deref for Sender<T> {
            type Target = r::Sender<T>;
            fn deref(&self) -> &r::Sender<T> {
                &self.0
            }
        }
        impl<T> Deref for Receiver<T> {
            type Target = r::Receiver<T>;
            fn deref(&self) -> &r::Receiver<T> {
                &self.0
            }
        }
        impl<T> DerefMut for Receiver<T> {
            fn deref_mut(&mut self) -> &mut r::Receiver<T> {
                &mut self.0
            }
        }
        impl<T> Receiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                mc_rt::point("channel recv");
                self.0.poll_recv(cx)
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                mc_rt::point("channel try_recv");
                self.0.try_recv()
            }
            pub fn close(&mut self) {
                mc_rt::point("channel close");
                self.0.close()
            }
        }
        #[derive(Debug)]
        pub struct UnboundedSender<T>(r::UnboundedSender<T>);
        #[derive(Debug)]
        pub struct UnboundedReceiver<T>(r::UnboundedReceiver<T>);
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let (a, b) = r::unbounded_channel();
            (UnboundedSender(a), UnboundedReceiver(b))
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Deref for UnboundedSender<T> {
            type Target = r::UnboundedSender<T>;
            fn deref(&self) -> &r::UnboundedSender<T> {
                &self.0
            }
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, t: T) -> Result<(), error::SendError<T>> {
                mc_rt::point("channel send");
                self.0.send(t)
            }
            pub fn is_closed(&self) -> bool {
                mc_rt::point("channel is_closed");
                self.0.is_closed()
            }
        }
        impl<T> Deref for UnboundedReceiver<T> {
            type Target = r::UnboundedReceiver<T>;
            fn deref(&self) -> &r::UnboundedReceiver<T> {
                &self.0
            }
        }
        impl<T> DerefMut for UnboundedReceiver<T> {
            fn deref_mut(&mut self) -> &mut r::UnboundedReceiver<T> {
                &mut self.0
            }
        }
        impl<T> UnboundedReceiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                mc_rt::point("channel recv");
                self.0.poll_recv(cx)
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                mc_rt::point("channel try_recv");
                self.0.try_recv()
            }
            pub fn close(&mut self) {
                mc_rt::point("channel close");
                self.0.close()
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                mc_rt::point("channel receiver dropped");
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                mc_rt::point("channel receiver dropped");
            }
        }
    }
}
