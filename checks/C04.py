"""C04: a written header is read back identically."""
from checks.lib import case

BOUNDS = {"quick": {"stanzas": "0..3, 8, 20", "arguments": "0..3, 5, 9, 17, 40 per stanza, each of 1..3 (43, 100, 700) characters", "type": "1..6, 40 characters",
                    "characters of types and arguments": "every visible ASCII character", "body": "one stanza: every length 0..196, and 342, 512, 683, 684, 1366, of base64 characters; several stanzas: lengths 0, 1, 43, 64, 65, 128, 129",
                    "MAC": "every 32-byte value", "payload behind the header": "every byte string of 0..3 bytes and a long one"},
          "thorough": {"stanzas": "0..5", "body": "one stanza: every length 0..600", "types and arguments": "also non-ASCII characters", "rest": "as quick"}}
OUTSIDE = ["types and arguments that are empty or contain white space (the format cannot carry them)", "more or longer stanzas"]
EXPECT_LABELS = ["stanza list", "type", "arguments", "body", "MAC", "payload position", "lines"]
VCHAR = "".join(map(chr, range(33, 127)))
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def cases(tier):
    out = [case(empty)]
    top = 196 if tier == "quick" else 600
    for a in range(0, top + 1, 28):
        out.append(case(one, lo=a, hi=min(a + 27, top)))
    for n in (342, 512, 683, 684, 1366):   # RSA keys of 2048, 3072, 4096 and 8192 bits; a multiple of the line length
        out.append(case(one, lo=n, hi=n))
    out += [case(tokens, nargs=n) for n in range(0, 4)]
    out += [case(many, nargs=n, size=k) for n, k in ((5, 2), (9, 2), (17, 1), (40, 1), (1, 43), (2, 100), (1, 700))]
    for n in (8, 20) if tier == "quick" else (8, 20, 100):
        out.append(case(several, shape=(2,) * n))
    for shape in [(0, 0), (1, 43), (43, 1), (64, 64), (65, 0), (0, 128), (129, 64), (43, 43, 43), (0, 0, 0), (64, 0, 65)]:
        out.append(case(several, shape=shape))
    if tier == "thorough":
        for shape in [(43,) * 4, (64,) * 5, (0,) * 5, (65, 64, 63, 0, 1)]:
            out.append(case(several, shape=shape))
        out += [case(unicode_tokens, n=n) for n in (1, 2)]
    out += [case(position, n=n) for n in (0, 1, 3)]
    return out


def write(h, stanzas, mac, payload=b""):
    """(stream on the written file, header bytes)"""
    import io
    from age.format import Header, Recipient, dump_header
    out = io.BytesIO()
    hd = Header([Recipient(t, list(a), b) for t, a, b in stanzas])
    dump_header(hd, out, mac=mac)
    data = out.getvalue()
    if not data.endswith(b"\n"):
        data = data + b"\n"
    return io.BytesIO(data + payload), data


def compare(h, stanzas, mac, stream, payload):
    from age.format import load_header
    r, err = h.run(load_header, stream)
    h.check(err is None, "stanza list")
    hd, mac2 = r
    h.check(len(hd.recipients) == len(stanzas), "stanza list")
    for (t, args, body), got in zip(stanzas, hd.recipients):
        h.check(got.type == t, "type")
        h.check(len(got.arguments) == len(args), "arguments")
        for x, y in zip(args, got.arguments):
            h.check(x == y, "arguments")
        h.check(got.body == body, "body")
    h.check(mac2 == mac, "MAC")
    h.check(stream.read() == payload, "payload position")


def lines(h, data, stanzas):
    """Newline-terminated lines: version, per stanza its line and its wrapped body, footer."""
    h.check(data.endswith(b"\n"), "lines")
    ls = data[:-1].split(b"\n")
    h.check(ls[0] == b"age-encryption.org/v1", "lines")
    i = 1
    for t, args, body in stanzas:
        h.check(ls[i].startswith(b"-> "), "lines")
        i += 1
        left = len(body)
        while left > 0:
            h.check(len(ls[i]) == min(64, left), "lines")
            left -= 64
            i += 1
    h.check(ls[i].startswith(b"--- "), "lines")
    h.check(len(ls) == i + 1, "lines")


def empty(h):
    mac = h.bytes("mac", 32)
    stream, data = write(h, [], mac)
    lines(h, data, [])
    compare(h, [], mac, stream, b"")


def one(h, lo, hi):
    n = h.choose("n", range(lo, hi + 1))
    mac = h.bytes("mac", 32)
    st = [("X25519", [h.text("arg", 4, chars=B64)], h.text("body", n, chars=B64))]
    stream, data = write(h, st, mac, b"\n-> x")
    lines(h, data, st)
    compare(h, st, mac, stream, b"\n-> x")


def tokens(h, nargs):
    mac = h.bytes("mac", 32)
    t = h.text("type", h.choose("tn", [1, 2, 6]), chars=VCHAR)
    args = [h.text("arg%d" % i, h.choose("an%d" % i, [1, 3]), chars=VCHAR) for i in range(nargs)]
    st = [(t, args, h.text("body", 22, chars=B64))]
    stream, data = write(h, st, mac, b"--- ")
    lines(h, data, st)
    compare(h, st, mac, stream, b"--- ")


def many(h, nargs, size):
    """Many or long arguments, a long type."""
    mac = h.bytes("mac", 32)
    st = [(h.text("type", h.choose("tn", [1, 40]), chars=VCHAR), [h.text("arg%d" % i, size, chars=VCHAR) for i in range(nargs)], h.text("body", 43, chars=B64))]
    stream, data = write(h, st, mac, b"")
    compare(h, st, mac, stream, b"")


def unicode_tokens(h, n):
    mac = h.bytes("mac", 32)
    t = h.text("type", n, lo=0xA1, hi=0x167F)
    args = [h.text("arg", 1, lo=0x3001, hi=0xD7FF)]
    st = [(t, args, h.text("body", 10, chars=B64))]
    stream, data = write(h, st, mac, b"")
    compare(h, st, mac, stream, b"")


def several(h, shape):
    mac = h.bytes("mac", 32)
    st = []
    for i, n in enumerate(shape):
        st.append((h.text("t%d" % i, 3, chars=VCHAR), [h.text("a%d.%d" % (i, j), 2, chars=VCHAR) for j in range(i % 3)],
                   h.text("b%d" % i, n, chars=B64)))
    stream, data = write(h, st, mac, b"P")
    lines(h, data, st)
    compare(h, st, mac, stream, b"P")


def position(h, n):
    """Whatever follows the header is left in the stream."""
    mac = h.bytes("mac", 32)
    payload = h.bytes("payload", n)
    st = [("X25519", ["abcd"], h.text("body", 43, chars=B64)), ("scrypt", ["s", "18"], "")]
    stream, data = write(h, st, mac, payload)
    compare(h, st, mac, stream, payload)
