//! Stand-in for `mev-share-sse`: a subscription is recorded as a request.
#[derive(Clone, Default)]
pub struct EventClient;
impl EventClient {
    pub async fn subscribe<T>(&self, endpoint: &str) -> reqwest::Result<client::EventStream<T>> {
        reqwest::record(reqwest::Request { method: "SSE", url: endpoint.to_string(), query: vec![], headers: vec![], body: None });
        Ok(client::EventStream(core::marker::PhantomData))
    }
}
pub mod client {
    pub struct EventStream<T>(pub(crate) core::marker::PhantomData<fn() -> T>);
}
