//! Stands in for the HTTP client: requests are recorded, and answered from a script.
pub use bytes::Bytes;
pub use http::header;
pub use http::{HeaderMap, Method, StatusCode, Version};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

#[derive(Debug)]
pub struct Error(pub &'static str);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Url(String);
impl Url {
    pub fn parse(s: &str) -> Result<Self> {
        Ok(Self(s.to_string()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Url {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl From<Url> for String {
    fn from(u: Url) -> String {
        u.0
    }
}
impl AsRef<str> for Url {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

/// What the server says: `url` asked for, `at` the URL the answer comes from.
#[derive(Clone)]
pub struct Answer {
    pub url: String,
    pub at: String,
    pub status: u16,
    pub headers: Vec<(&'static str, Vec<u8>)>,
    pub body: Vec<u8>,
}
#[derive(Default)]
pub struct Script {
    pub answers: Vec<Answer>,
    pub asked: RefCell<Vec<(String, HeaderMap)>>,
}
#[derive(Clone, Default)]
pub struct Client(pub Rc<Script>);
// One thread only.
unsafe impl Send for Client {}
unsafe impl Sync for Client {}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder { client: self.clone(), url: url.as_ref().to_string(), headers: HeaderMap::new() }
    }
}
pub struct RequestBuilder {
    client: Client,
    url: String,
    headers: HeaderMap,
}
impl RequestBuilder {
    pub fn header<K, V>(mut self, k: K, v: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        header::HeaderValue: TryFrom<V>,
    {
        let (Ok(k), Ok(v)) = (header::HeaderName::try_from(k), header::HeaderValue::try_from(v)) else {
            panic!("invalid header")
        };
        self.headers.append(k, v);
        self
    }
    pub async fn send(self) -> Result<Response> {
        self.client.0.asked.borrow_mut().push((self.url.clone(), self.headers));
        for a in &self.client.0.answers {
            if a.url == self.url {
                let mut headers = HeaderMap::new();
                for (k, v) in &a.headers {
                    headers.append(*k, header::HeaderValue::from_bytes(v).map_err(|_| Error("header"))?);
                }
                return Ok(Response {
                    url: Url(a.at.clone()),
                    status: StatusCode::from_u16(a.status).unwrap(),
                    headers,
                    body: a.body.clone().into(),
                });
            }
        }
        Err(Error("no answer"))
    }
}
#[derive(Debug)]
pub struct Response {
    url: Url,
    status: StatusCode,
    headers: HeaderMap,
    body: Bytes,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    pub async fn bytes(self) -> Result<Bytes> {
        Ok(self.body)
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
}
