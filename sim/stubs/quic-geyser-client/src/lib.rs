//! Stand-in for quic-geyser-client: a stream of messages put in by the harness.
use quic_geyser_common::{filters::Filter, message::Message, types::connections_parameters::ConnectionParameters};
use std::{collections::VecDeque, sync::Mutex, task::Poll};
/// Messages on their way; `None` ends the stream.
pub static INBOX: Mutex<VecDeque<Option<Message>>> = Mutex::new(VecDeque::new());
/// What was subscribed to.
pub static SUBSCRIBED: Mutex<Vec<Filter>> = Mutex::new(Vec::new());
pub mod non_blocking { pub mod client {
    use crate::*;
    pub struct Client; pub struct Receiver; pub struct Handle;
    impl Client {
        pub async fn new(_url: String, _p: ConnectionParameters) -> anyhow::Result<(Client, Receiver, Handle)> { Ok((Client, Receiver, Handle)) }
        pub async fn subscribe(&self, f: Vec<Filter>) -> anyhow::Result<()> { SUBSCRIBED.lock().unwrap().extend(f); Ok(()) }
    }
    impl Receiver { pub async fn recv(&mut self) -> Option<Message> { std::future::poll_fn(|_| match INBOX.lock().unwrap().pop_front() { Some(m) => Poll::Ready(m), None => Poll::Pending }).await } }
} }
