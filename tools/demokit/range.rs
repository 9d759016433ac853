// A server of one file at /f that supports range requests.
use super::srv::*;
use std::sync::Arc;
pub fn range_server(data: Vec<u8>) -> Server {
    Server::start(Arc::new(move |r: &Req| {
        let n = data.len();
        let Some((a, b)) = r.header("Range").and_then(|h| h.strip_prefix("bytes=")).and_then(|h| h.split_once('-'))
            else { return Act::Reply(Reply::new(200, &data)) };
        let (a, b): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
        if a >= n {
            return Act::Reply(Reply::new(416, "").h("Content-Range", &format!("bytes */{n}")));
        }
        let b = b.min(n - 1);
        Act::Reply(Reply::new(206, &data[a..=b]).h("Content-Range", &format!("bytes {a}-{b}/{n}")))
    }))
}
