//! Stream grammars shared by several explorations.
#![allow(dead_code)]

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Request messages that a conforming (or mildly sloppy) client may send. All have a protocol
/// version in the request line and a self-delimiting body.
pub fn requests() -> Vec<Vec<u8>> {
    let lines: &[&[u8]] = &[
        b"GET /a?b=1 HTTP/1.1\r\n",
        b"POST http://h.io:81/p/../q%41#f HTTP/1.0\n",
        b"PUT  /x\tHTTP/1.1\r\n",
    ];
    let hdrs: &[&[u8]] = &[
        b"",
        b"Host: h.io\r\n",
        b"Host: h.io\r\nA: 1\r\nB: 2\r\n 3\r\nA: 4\r\n",
        b"host:h\nCookie : x=1; y\n",
        b"Host: a\r\nnocolon\r\n: e\r\nX:\r\n",
        b"Authorization: Basic dTpw\r\nHost: u\r\nContent-Type: a/B;c\r\n",
    ];
    let bodies: &[&[u8]] = &[
        b"\r\n",
        b"Content-Length: 0\r\n\r\n",
        b"Content-Length: 5\r\n\r\nab\ncd",
        b"Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n10\r\n0123456789abcdef\r\n0\r\n\r\n",
        b"Transfer-Encoding: chunked\r\n\r\n2;x=y\r\nab\r\n01\r\nc\r\n0\r\nT: v\r\nU: w\r\n\r\n",
    ];
    let mut out = vec![];
    for l in lines {
        for h in hdrs {
            for b in bodies {
                out.push(cat(&[l, h, b]));
            }
        }
    }
    out
}

/// More variety in one dimension at a time: request lines, header blocks and bodies.
pub fn requests_more() -> Vec<Vec<u8>> {
    let mut out = vec![];
    let lines: &[&[u8]] = &[
        b"\r\nGET / HTTP/1.1\r\n",
        b"\n\nGET / HTTP/1.1\n",
        b" GET / HTTP/1.1\r\n",
        b"FOO * HTTP/1.1\r\n",
        b"GET / HTTP/1.1 \r\n",
        b"GET / HTTP/2.7\r\n",
        b"GET / HTTQ/1.1\r\n",
        b"GET /a b c HTTP/1.1\r\n",
        b"GET /%2e%00%u0041%zz\\//./x/..;p?q=%41&r#frag HTTP/1.1\r\n",
        b"GET http://u:p@[::1]:99999/x HTTP/1.1\r\n",
        b"OPTIONS //h:80:90 HTTP/1.0\r\n",
        b"GET /\0\x01\xff HTTP/1.1\r\n",
        b"GET /\rx HTTP/1.1\r\r\n",
        b"TRACE\t/\x0b\x0c HTTP/1.1\r\n",
    ];
    for l in lines {
        for h in [&b"Host: h\r\n\r\n"[..], b"Content-Length: 2\r\n\r\nab", b"\n"] {
            out.push(cat(&[l, h]));
        }
    }
    let hdrs: &[&[u8]] = &[
        b" lead: 1\r\nA: b\r\n",
        b"A: b\r\n\tc\r\n \r\n d\r\n",
        b"A: b \t \r\nB:\tc\r\n",
        b"A : b\r\nB\0C: d\0e\r\n",
        b"A(b): c\r\nA b: c\r\n",
        b"A:\r\n b\r\n\tc\r\n",
        b"A: b\n c\nD: e\n",
        b"A: b\r\r\nC: d\r\n",
        b"A: b\rC: d\r\n",
        b"::\r\n:\r\n a\r\n",
        b"nocolon\r\n folded\r\nx\r\n",
        b"Host: a\r\nHost: b\r\nhost: c\r\n",
        b"Host: a:80:90\r\nX-Length: 0\r\nX-Length: 0\r\n",
        b"Host: \r\nCookie: a=b; c ;=d\r\nCookie: e\r\n",
        b"Authorization: Digest username=\"u\\\"v\", x\r\n",
        b"Authorization: Basic !!\r\nContent-Type: Multipart/Form;x\r\n",
        b"Connection: close\r\nExpect: 100-continue\r\n",
        b"X: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n",
        b"\xff\xfe: \x80\r\n\x01\r\n",
    ];
    for h in hdrs {
        for b in [&b"\r\n"[..], b"\n", b"Content-Length: 1\r\n\r\nx", b"Transfer-Encoding: chunked\r\n\r\n1\r\nz\r\n0\r\n\r\n"] {
            out.push(cat(&[b"GET / HTTP/1.1\r\n", h, b]));
            // the same block as a trailer
            if b.len() < 3 {
                out.push(cat(&[b"PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", h, b]));
            }
        }
    }
    let bodies: &[&[u8]] = &[
        b"Content-Length: 4\n\n\r\n\r\n",
        b"content-length:  007 \r\n\r\nGET / H",
        b"Content-Length: 3\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\na=b",
        b"Transfer-Encoding:  Chunked \r\n\r\n  A  \r\n0123456789\r\n000\r\n\r\n",
        b"Transfer-Encoding: chunked\n\n1\nx\n1\n\n\n0\n\n",
        b"Transfer-Encoding: chunked\r\nContent-Length: 99\r\n\r\n2\r\n\r\n\r\n0\r\n\r\n",
        b"Transfer-Encoding: gzip, chunked\r\n\r\n1;a=\"b\"\r\nx\r\n0;z\r\nT:\r\n\r\n",
    ];
    for b in bodies {
        for l in [&b"POST / HTTP/1.1\r\n"[..], b"GET / HTTP/1.0\nA: b\n"] {
            out.push(cat(&[l, b]));
        }
    }
    out
}

/// Response counterparts; the flag says that the request was a HEAD.
pub fn responses_more() -> Vec<(bool, Vec<u8>)> {
    let mut out = vec![];
    let lines: &[&[u8]] = &[
        b"HTTP/1.1 200\r\n",
        b"HTTP/1.1  200  OK  fine \r\n",
        b"HTTP/1.1\t201\tX\r\n",
        b"HTTP/1.0 999 \r\n",
        b"HTTP/1.1 500 a:b\n",
        b"HTTP/2.0 200 OK\r\n",
        b"HTTP/1.1 2x0 OK\r\n",
        b"HTTP/1.1 404 \xff\x80\0\r\n",
        b"HTTP/1.1 404 A\rB\r\n",
    ];
    for l in lines {
        for h in [&b"Content-Length: 2\r\n\r\nab"[..], b"A: b\r\nContent-Length: 0\n\n", b"Transfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n\r\n"] {
            out.push((false, cat(&[l, h])));
        }
    }
    let hdrs: &[&[u8]] = &[
        b" lead: 1\r\nA: b\r\n",
        b"A: b\r\n\tc\r\n \r\n d\r\n",
        b"A: b \t \r\nB:\tc\r\n",
        b"A : b\r\nB\0C: d\0e\r\n",
        b"A(b): c\r\nA b: c\r\n",
        b"A:\r\n b\r\n\tc\r\n",
        b"A: b\n c\nD: e\n",
        b"::\r\n:\r\n a\r\n",
        b"nocolon\r\n folded\r\nx\r\n",
        b"Set-Cookie: a\r\nSet-Cookie: b\r\nset-cookie: c\r\n",
        b"Content-Type: Text/HTML;x=y\r\n",
        b"X: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n",
        b"\xff\xfe: \x80\r\n\x01\r\n",
    ];
    for h in hdrs {
        for b in [&b"Content-Length: 1\r\n\r\nx"[..], b"Content-Length: 0\n\n", b"Transfer-Encoding: chunked\r\n\r\n1\r\nz\r\n0\r\n\r\n", b"\r\nto the end\r\n\r\n"] {
            out.push((false, cat(&[b"HTTP/1.1 200 OK\r\n", h, b])));
        }
        for e in [&b"\r\n"[..], b"\n"] {
            out.push((false, cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", h, e])));
        }
    }
    let bodies: &[&[u8]] = &[
        b"Content-Length: 4\n\n \r\n\r",
        b"content-length:  007 \r\n\r\nHTTP/1.",
        b"Content-Length: 3\r\nContent-Length: 3\r\n\r\nabc",
        b"Transfer-Encoding:  Chunked \r\n\r\n  A  \r\n0123456789\r\n000\r\n\r\n",
        b"Transfer-Encoding: chunked\n\n1\nx\n1\n\n\n0\n\n",
        b"Transfer-Encoding: chunked\r\nContent-Length: 99\r\n\r\n2\r\n\r\n\r\n0\r\n\r\n",
        b"Transfer-Encoding: gzip, chunked\r\n\r\n1;a=\"b\"\r\nx\r\n0;z\r\nT:\r\n\r\n",
        b"\r\nup to the end\r\n",
        b"\r\n",
        b"Connection: close\n\n\n",
    ];
    for b in bodies {
        for l in [&b"HTTP/1.1 200 OK\r\n"[..], b"HTTP/1.0 200 OK\nA: b\n"] {
            out.push((false, cat(&[l, b])));
        }
        out.push((false, cat(&[b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\n", b])));
        out.push((false, cat(&[b"HTTP/1.1 100 C\nX: y\nZ: w\n\nHTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\n", b])));
    }
    for (h, l) in [(true, &b"HTTP/1.1 200 OK\r\n"[..]), (false, b"HTTP/1.1 204 No\r\n"), (false, b"HTTP/1.1 304 NM\r\n")] {
        for t in [&b"\r\n"[..], b"Content-Length: 7\r\n\r\n", b"Transfer-Encoding: chunked\n\n", b"A: b\r\n c\r\n\r\n"] {
            // (a 204 or 304 response that announces a body is taken to have it)
            if h || !(t.starts_with(b"Content") || t.starts_with(b"Transfer")) {
                out.push((h, cat(&[l, t])));
            }
        }
    }
    out
}

pub fn responses() -> Vec<Vec<u8>> {
    let lines: &[&[u8]] = &[
        b"HTTP/1.1 200 OK\r\n",
        b"HTTP/1.0 404 Not Found\n",
        b"HTTP/1.1 302\r\n",
    ];
    let hdrs: &[&[u8]] = &[
        b"",
        b"Server: x\r\n",
        b"A: 1\r\nB: 2\r\n 3\r\nA: 4\r\n",
        b"a:h\nSet-Cookie : x=1; y\n",
        b"S: a\r\nnocolon\r\n: e\r\nX:\r\n",
    ];
    let bodies: &[&[u8]] = &[
        b"Content-Length: 0\r\n\r\n",
        b"Content-Length: 5\r\n\r\nab\ncd",
        b"Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n10\r\n0123456789abcdef\r\n0\r\n\r\n",
        b"Transfer-Encoding: chunked\r\n\r\n2;x=y\r\nab\r\n01\r\nc\r\n0\r\nT: v\r\nU: w\r\n\r\n",
    ];
    let mut out = vec![];
    for l in lines {
        for h in hdrs {
            for b in bodies {
                out.push(cat(&[l, h, b]));
            }
        }
    }
    out
}

/// All sorted cut-position lists of a stream of n bytes with at most k cuts.
pub fn cuts(n: usize, k: usize, mut f: impl FnMut(&[usize])) {
    let mut cur = vec![];
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() == k {
            return;
        }
        for p in from..n {
            cur.push(p);
            rec(n, k, p + 1, cur, f);
            cur.pop();
        }
    }
    rec(n, k, 1, &mut cur, &mut f)
}

/// All 2^w segmentations inside each window of w+1 consecutive bytes (rest unsegmented).
pub fn windows(n: usize, w: usize, mut f: impl FnMut(&[usize])) {
    if n < 2 {
        return;
    }
    let mut cur = vec![];
    let last = n - 1; // cut positions 1..=n-1
    let w = w.min(last);
    for s in 1..=(last + 1 - w) {
        for mask in 1u32..(1 << w) {
            // canonical: the window starts at its first cut
            if mask & 1 == 0 && s != last + 1 - w {
                continue;
            }
            cur.clear();
            for i in 0..w {
                if mask >> i & 1 == 1 {
                    cur.push(s + i);
                }
            }
            f(&cur);
        }
    }
}

pub fn segments<'a>(s: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut from = 0;
    for &c in cuts {
        if c > from && c < s.len() {
            v.push(&s[from..c]);
            from = c;
        }
    }
    if from < s.len() {
        v.push(&s[from..]);
    }
    v
}

pub fn gzip(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn zlib(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn deflate(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn lzma(data: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    lzma_rs::lzma_compress(&mut std::io::Cursor::new(data), &mut o).unwrap();
    o
}
pub fn compressed_bodies() -> Vec<Vec<u8>> {
    let d = b"hello hello hello world";
    vec![gzip(d), zlib(d), deflate(d), lzma(d), gzip(&gzip(d))]
}
