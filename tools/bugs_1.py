RQ, RS, CP, TX, TXS, HD, HK = ("src/request.rs", "src/response.rs", "src/connection_parser.rs", "src/transaction.rs",
                      "src/transactions.rs", "src/headers.rs", "src/hook.rs")
B("c01-chunk-end-split", "C01",
  [(RQ, """            // Advance to end. Dont need to buffer
            req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
""", """            // Advance to end. Dont need to buffer
""")],
  "a chunked request whose CRLF after a body chunk is split between two packets",
  "the recorded request message length depends on where the stream was cut",
  r'''
fn main() {
    let s = b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n";
    let mut want = None;
    for cut in 0..s.len() {
        let mut p = parser(config());
        if cut > 0 { req(&mut p, &s[..cut]); }
        req(&mut p, &s[cut..]);
        let l = p.tx(0).unwrap().request_message_len;
        assert_eq!(*want.get_or_insert(l), l, "cut {}", cut);
    }
}
''')

B("c02-finalize-buffer", "C02",
  [(RS, """        let mut data = take(&mut self.response_buf);
        let buf_len = data.len();
        data.add(work);

        if data.is_empty() {
            //closing
            return self.state_response_complete(input);
        }
""", """        if self.response_body_data_left.is_none() {
            self.response_buf.truncate(self.cfg.field_limit.min(16));
        }
        let mut data = take(&mut self.response_buf);
        let buf_len = data.len();
        data.add(work);

        if data.is_empty() {
            //closing
            return self.state_response_complete(input);
        }
""")],
  "a response following a chunked one, its status line cut after more than 16 bytes",
  "part of the second response's status line is lost, depending on the cut",
  r"""
fn main() {
    let s = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\nHTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n";
    for cut in 0..s.len() {
        let mut p = parser(config());
        req(&mut p, b"GET /1 HTTP/1.1\r\nHost: a\r\n\r\nGET /2 HTTP/1.1\r\nHost: a\r\n\r\n");
        if cut > 0 { resp(&mut p, &s[..cut]); }
        resp(&mut p, &s[cut..]);
        assert_eq!(bytes("sb", 0), b"ab", "cut {}", cut);
        let t = p.tx(1).unwrap();
        assert_eq!(t.response_message.as_ref().map(|x| x.as_slice().to_vec()), Some(b"Not Found".to_vec()), "cut {}", cut);
    }
}
""")

B("c11-header-trickle", "C11",
  [(RQ, """            self.request_data_consume(input, data.len());
            self.check_request_buffer_limit(remaining.len())?;
""", """            self.request_data_consume(input, data.len());
            self.check_request_buffer_limit(min(data.len(), remaining.len()))?;
""")],
  "a request header that never ends, trickled in small packets",
  "the field limit no longer bounds the memory an unfinished header occupies",
  r'''
fn main() {
    let mut c = config();
    c.set_field_limit(1000);
    let mut p = parser(c);
    req(&mut p, b"GET / HTTP/1.1\r\nX: ");
    let mut st = HtpStreamState::DATA;
    for _ in 0..300 { st = req(&mut p, b"aaaaaaaaaa"); }
    assert_eq!(st, HtpStreamState::ERROR);
}
''')

B("c08-auto-destroy-early", "C08",
  [(TXS, """                if !tx.is_complete() {
                    return;
                }
""", """                if !tx.is_complete() && self.request == self.response {
                    return;
                }
""")],
  "automatic destruction of transactions and a second request pipelined behind an unanswered one",
  "an unanswered transaction is destroyed as soon as its request completes while the parser is ahead of the responses",
  r'''
fn main() {
    let mut c = config();
    c.set_tx_auto_destroy(true);
    let mut p = parser(c);
    for i in 0..3 { req(&mut p, format!("GET /{} HTTP/1.1\r\nHost: a\r\n\r\n", i).as_bytes()); }
    for _ in 0..3 { resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx"); }
    assert_eq!(count("tc"), 3);
    assert_eq!(count("rs"), 3);
}
''')

B("c04-data-other-count", "C04",
  [(RQ, """        // Store the current chunk information
        self.request_chunk_count = self.request_chunk_count.wrapping_add(1);
        self.conn.track_inbound_data(chunk.len());
""", """        // Store the current chunk information
        self.request_chunk_count = self.request_chunk_count.wrapping_add(1);
        if self.request_status != HtpStreamState::DATA_OTHER {
            // what is resubmitted after a suspension has been counted already
            self.conn.track_inbound_data(chunk.len());
        }
""")],
  "fresh request data offered while the parser waits for the response to a CONNECT",
  "bytes offered while the direction is suspended are missing from the connection counter",
  r'''
fn main() {
    let mut p = parser(config());
    let a = b"CONNECT a:443 HTTP/1.1\r\nHost: a\r\n\r\nXY";
    assert_eq!(req(&mut p, a), HtpStreamState::DATA_OTHER);
    req(&mut p, b"XYZ");
    assert_eq!(p.conn.request_data_counter as usize, a.len() + 3);
}
''')

B("c10-tx-hook-verdict", "C10",
  [(RS, """        // Run transaction hooks first
        resp.hook_response_body_data.clone().run_all(self, d)?;
        // Run configuration hooks second
        self.cfg.hook_response_body_data.run_all(self, d)?;
        Ok(())
""", """        // Run transaction hooks first
        let rc = resp.hook_response_body_data.clone().run_all(self, d);
        // Run configuration hooks second
        self.cfg.hook_response_body_data.run_all(self, d)?;
        rc
""")],
  "a body callback registered on the transaction that answers stop, and another on the configuration",
  "the configuration's body callback still runs after the transaction's callback stopped the stream",
  r'''
fn stop(_t: &mut Transaction, _d: &ParserData) -> R { Err(HtpStatus::STOP) }
fn reg(t: &mut Transaction) -> R { t.hook_response_body_data.register(stop); Ok(()) }
fn main() {
    let mut c = config();
    c.register_request_headers(reg);
    let mut p = parser(c);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    let st = resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc");
    assert_eq!(st, HtpStreamState::STOP);
    assert_eq!(count("sb"), 0);
}
''')

B("c09-101-order", "C09",
  [(RS, """            if te_opt.is_none() && cl_opt.is_none() {
                self.response_state = State::FINALIZE;
                if self.request_status""", """            if te_opt.is_none() && cl_opt.is_none() && !response_tx.seen_100continue {
                self.response_state = State::FINALIZE;
                if self.request_status""")],
  "a 101 response that follows an interim 100 response",
  "the upgrade is not followed: traffic after it is parsed as HTTP",
  r'''
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\nUpgrade: x\r\nExpect: 100-continue\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 100 Continue\r\n\r\n");
    let st = resp(&mut p, b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\n\r\n");
    assert_eq!(st, HtpStreamState::TUNNEL);
    assert_eq!(req(&mut p, b"\x01\x02"), HtpStreamState::TUNNEL);
}
''')

B("c06-close-revives", "C06",
  [(CP, """        // Update internal flags
        if self.request_status != HtpStreamState::ERROR {
            self.request_status = HtpStreamState::CLOSED
        }
        // Call the parsers one last time, which will allow them
        // to process the events that depend on stream closure
        self.request_data(ParserData::default(), timestamp);
    }
""", """        // Update internal flags
        self.request_status = HtpStreamState::CLOSED;
        // Call the parsers one last time, which will allow them
        // to process the events that depend on stream closure
        self.request_data(ParserData::default(), timestamp);
    }
""")],
  "closing the request side after it failed",
  "a failed request direction is revived by closing it: callbacks run and later data is parsed",
  r'''
fn main() {
    let mut c = config();
    c.set_field_limit(60);
    let mut p = parser(c);
    assert_eq!(req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\nX: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), HtpStreamState::ERROR);
    let n = names().len();
    p.request_close(None);
    assert_eq!(req(&mut p, b"GET / HTTP/1.1\r\n"), HtpStreamState::ERROR);
    assert_eq!(names().len(), n);
}
''')

B("c07-chunk-ext-zero", "C07",
  [(RS, """                                    Ordering::Equal => {
                                        // End of data
                                        self.response_state = State::HEADERS;
""", """                                    Ordering::Equal if !ext => {
                                        // End of data
                                        self.response_state = State::HEADERS;
""")],
  "a chunked response whose last (zero) chunk carries a chunk extension",
  "the end of the body is not recognised, the trailer is read as chunk lengths",
  r'''
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0;x=y\r\n\r\n");
    assert_eq!(bytes("sb", 0), b"a");
    assert_eq!(count("sc"), 1);
}
''')

B("c05-flush-complete", "C05",
  [(CP, "if tx.is_started() && !tx.is_complete() {", "if tx.is_started() && (!tx.is_complete() || !self.cfg.tx_auto_destroy) {")],
  "flush_incomplete without automatic destruction, and a completed transaction when the connection closes",
  "transaction_complete runs a second time for transactions that were already complete",
  r"""
fn main() {
    let mut c = config();
    c.set_flush_incomplete(true);
    c.set_tx_auto_destroy(false);
    let mut p = parser(c);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    resp(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx");
    p.close(None);
    assert_eq!(count("tc"), 1);
}
""")

B("c03-response-scan", "C03",
  [(RS, """            if input.len() >= 4 {
                let next = input.as_slice();""", """            if input.len() >= 3 {
                let next = input.as_slice();""")],
  "a junk line before the status line followed by exactly three bytes in the same packet",
  "the parser panics on attacker-controlled response bytes (subtraction overflow)",
  r'''
fn main() {
    let mut p = parser(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    resp(&mut p, b"junk\r\nabc");
}
''')
