B("c30-removes-older", "C30",
  [("src/transactions.rs", "        self.transactions.remove(&index)\n    }\n\n    /// Get the given transaction by index number\n    pub fn get(", """        let tx = self.transactions.remove(&index);
        // Answers come in order: whatever is older is not needed either
        self.transactions.retain(|i, tx| *i > index || !tx.is_complete());
        tx
    }

    /// Get the given transaction by index number
    pub fn get(""")],
  "two complete transactions, of which the later one is removed first",
  "the earlier one disappears with it",
  r"""
fn main() {
    let mut p = parser(config());
    for _ in 0..2 {
        req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
        resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    }
    p.remove_tx(1);
    assert!(p.tx(0).is_some());
}
""")

B("c30-reuses-numbers", "C30",
  [("src/transactions.rs", "    pub fn remove(&mut self, index: usize) -> Option<Transaction> {\n", """    pub fn remove(&mut self, index: usize) -> Option<Transaction> {
        // The youngest transaction leaves no hole behind
        if index + 1 == self.request && self.request == self.response && index > 0 {
            self.request = index;
            self.response = index;
        }
""")],
  "the youngest transaction is removed while both directions are idle",
  "its number is given to the next one",
  r"""
fn main() {
    let mut p = parser(config());
    for i in 0..3 {
        req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
        resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
        assert_eq!(p.tx_size(), i + 1);
        p.remove_tx(i);
    }
}
""")

B("c31-close-time", "C31",
  [("src/connection_parser.rs", """        // Close the underlying connection.
        self.conn.close(timestamp);
        // Update internal flags
        if self.request_status != HtpStreamState::ERROR {
            self.request_status = HtpStreamState::CLOSED
        }
        if self.response_status""", """        // Update internal flags
        if self.request_status != HtpStreamState::ERROR {
            // Close the underlying connection.
            self.conn.close(timestamp);
            self.request_status = HtpStreamState::CLOSED
        }
        if self.response_status""")],
  "a connection closed after the request stream has failed",
  "the close time is not recorded",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nTransfer-Encoding: x\r\n\r\n");
    let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(5);
    p.close(Some(t.into()));
    assert!(std::time::SystemTime::from(p.conn.close_timestamp) == t);
}
""")

B("c31-time-of-refused", "C31",
  [("src/response.rs", """        // Return if the connection is in stop state
        if self.response_status == HtpStreamState::STOP {""", """        // Remember the timestamp of the current response data chunk
        if let Some(timestamp) = timestamp {
            self.response_timestamp = timestamp;
        }
        // Return if the connection is in stop state
        if self.response_status == HtpStreamState::STOP {""")],
  "data given to a response stream that has failed",
  "the response time is that of a call that was refused",
  r"""
fn main() {
    let mut p = parser(config());
    let t = |n| std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(n);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    p.response_data(htp::connection_parser::ParserData::from(&b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n"[..]), Some(t(1).into()));
    p.response_data(htp::connection_parser::ParserData::from(&b"more"[..]), Some(t(2).into()));
    assert!(std::time::SystemTime::from(p.response_timestamp) == t(1));
}
""")

B("c31-reopened", "C31",
  [("src/connection_parser.rs", "        if self.request_status != HtpStreamState::NEW || self.response_status != HtpStreamState::NEW\n        {", "        if self.request_status != HtpStreamState::NEW && self.response_status != HtpStreamState::NEW\n        {")],
  "data in one direction before the connection is opened",
  "the connection is opened over a direction that is already in use",
  r"""
fn main() {
    let mut p = Box::new(htp::connection_parser::ConnectionParser::new(config()));
    req(&mut p, b"GET / HTTP/1.1\r\nTransfer-Encoding: x\r\n\r\n");
    p.open(None, Some(7), None, Some(80), None);
    assert_eq!(p.conn.client_port, None);
}
""")

B("c32-packet-history", "C32",
  [("src/connection.rs", "    /// Outbound data counter.\n    pub response_data_counter: u64,\n}", "    /// Outbound data counter.\n    pub response_data_counter: u64,\n    /// Sizes of the latest outbound packets.\n    outbound: Vec<usize>,\n}"),
   ("src/connection.rs", "            response_data_counter: 0,\n", "            response_data_counter: 0,\n            outbound: Vec::new(),\n"),
   ("src/connection.rs", "        self.response_data_counter = (self.response_data_counter).wrapping_add(len as u64);\n", """        self.response_data_counter = (self.response_data_counter).wrapping_add(len as u64);
        // A run of packets of the same size is one entry
        if self.outbound.last() != Some(&len) {
            self.outbound.push(len);
        }
""")],
  "a long response in pieces of changing size",
  "every change of size leaves an entry behind for the life of the connection",
  r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut p = parser(htp::config::Config::default());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 100000000\r\n\r\n");
    let mut at = vec![];
    at.reserve(8);
    for _ in 0..2 {
        for i in 0..20000 {
            p.response_data(htp::connection_parser::ParserData::from(&b"abcdefgh"[..1 + i % 7]), None);
        }
        at.push(LIVE.load(SeqCst));
    }
    assert!(at[1] < at[0] + 1000, "{:?}", at);
}
""")

B("c32-repeated-fields", "C32",
  [("src/response.rs", "            } else if reps < 64 {\n", "            } else if reps < u16::MAX {\n")],
  "a response that repeats one field without end",
  "the value of the field grows with every repetition",
  r"""
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\n");
    for _ in 0..20000 {
        resp(&mut p, b"A: bbbbbbbbbbbbbbbb\r\n");
    }
    resp(&mut p, b"Content-Length: 0\r\n\r\n");
    let t = p.tx(0).unwrap();
    let n: usize = t.response_headers.elements.iter().map(|h| h.value.len()).sum();
    assert!(n < 5000, "{} bytes", n);
}
""")
