//! Stands in for the middleware of the HTTP client.
use std::fmt;
#[derive(Debug)]
pub enum Error {
    Reqwest(reqwest::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Self::Reqwest(e) => e.fmt(f),
        }
    }
}
impl std::error::Error for Error {}
impl From<reqwest::Error> for Error {
    fn from(e: reqwest::Error) -> Self {
        Self::Reqwest(e)
    }
}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Default)]
pub struct ClientWithMiddleware(reqwest::Client);
pub struct ClientBuilder(reqwest::Client);
impl ClientBuilder {
    pub fn new(c: reqwest::Client) -> Self {
        Self(c)
    }
    pub fn build(self) -> ClientWithMiddleware {
        ClientWithMiddleware(self.0)
    }
}
impl ClientWithMiddleware {
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder(self.0.get(url))
    }
}
impl From<reqwest::Client> for ClientWithMiddleware {
    fn from(c: reqwest::Client) -> Self {
        Self(c)
    }
}
pub struct RequestBuilder(reqwest::RequestBuilder);
impl RequestBuilder {
    pub fn header<K, V>(self, k: K, v: V) -> Self
    where
        reqwest::header::HeaderName: TryFrom<K>,
        reqwest::header::HeaderValue: TryFrom<V>,
    {
        Self(self.0.header(k, v))
    }
    pub async fn send(self) -> Result<reqwest::Response> {
        Ok(self.0.send().await?)
    }
}
