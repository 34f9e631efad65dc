"""C19: ASCII armor round-trips every byte string."""
import io

from checks.lib import Sink, case

BOUNDS = {"quick": {"data": "every byte string of 0..160 bytes (all bytes symbolic)", "label": "every text of 0..4 characters below U+0100 that the writer accepts (data of 0, 1, 50 bytes), and the age label",
                    "write calls": "every split into two calls of 0..60 bytes, three and bytewise calls", "read calls": "every two read sizes, bytewise, -1, None-like repeated reads",
                    "line ends": "LF, CRLF, CR LF mixed as every one of the two per line (up to 4 lines)"},
          "thorough": {"data": "0..400 bytes", "label": "0..6 characters", "rest": "as quick"}}
OUTSIDE = ["text around the section (C20)", "longer data, but for 4097, 65536, 70001 and 800000 bytes of which 14 are symbolic"]
EXPECT_LABELS = ["one section", "label", "data", "line length", "stream data", "stream read to the end"]
AGE = "AGE ENCRYPTED FILE"
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="


def cases(tier):
    q = tier == "quick"
    out = []
    top = 160 if q else 400
    for a in range(0, top + 1, 20):
        out.append(case(text, lo=a, hi=min(a + 19, top)))
    for n in range(0, 5 if q else 7):
        out.append(case(labels, n=n, weight=4 + n))
    for n in (0, 1, 47, 48, 49, 60, 96, 97):
        out += [case(written, n=n), case(read_back, n=n), case(line_ends, n=n)]
    for n in (4097, 65536, 70001, 800000) if q else (4097, 65535, 65536, 65537, 70001, 140000, 800000):
        out.append(case(long, n=n, weight=9))
    return out


def text(h, lo, hi):
    from age.utils.asciiarmor import read_ascii_armored, write_ascii_armored
    n = h.choose("n", range(lo, hi + 1))
    data = h.bytes("data", n)
    out = io.StringIO()
    write_ascii_armored(out, AGE, data)
    s = out.getvalue()
    got = list(read_ascii_armored(io.StringIO(s)))
    h.check(len(got) == 1, "one section")
    h.check(got[0][0] == AGE, "label")
    h.check(got[0][1] == data, "data")
    lines = s.split("\n")
    h.check(lines[-1] == "" and lines[0] == "-----BEGIN AGE ENCRYPTED FILE-----" and lines[-2] == "-----END AGE ENCRYPTED FILE-----", "line length")
    body = lines[1:-2]
    h.check(h.all(*[len(x) <= 64 and len(x) > 0 for x in body]), "line length")


def labels(h, n):
    from age.utils.asciiarmor import read_ascii_armored, write_ascii_armored
    label = h.text("label", n, hi=0xFF)
    data = h.bytes("data", h.choose("size", [0, 1, 50]))
    out = io.StringIO()
    _, err = h.run(write_ascii_armored, out, label, data)
    if err is not None:
        h.check(isinstance(err, ValueError), "label")
        h.check(out.getvalue() == "", "label")
        return
    got, err = h.run(sections, out.getvalue())
    h.check(err is None, "one section")
    h.check(len(got) == 1, "one section")
    h.check(got[0][0] == label, "label")
    h.check(got[0][1] == data, "data")


def sections(s):
    from age.utils.asciiarmor import read_ascii_armored
    return list(read_ascii_armored(io.StringIO(s)))


def armored(parts, label=AGE):
    from age.utils.asciiarmor import AsciiArmoredOutput
    sink = Sink()
    out = AsciiArmoredOutput(label, sink)
    for p in parts:
        out.write(p)
    out.close()
    del out
    return sink.content()


def written(h, n):
    """However the data is split into write calls, the text is the same section."""
    data = h.bytes("data", n)
    how = h.choose("how", ["once", "two", "three", "bytewise", "close twice"])
    if how == "once":
        parts = [data]
    elif how == "two":
        k = h.choose("k", range(0, n + 1))
        parts = [data[:k], data[k:]]
    elif how == "three":
        parts = [data[:n // 3], b"", data[n // 3:n // 2], data[n // 2:]]
    else:
        parts = [data[i:i + 1] for i in range(n)]
    s = armored(parts).decode("ascii")
    got = sections(s)
    h.check(len(got) == 1, "one section")
    h.check(got[0][0] == AGE, "label")
    h.check(got[0][1] == data, "stream data")


def read_back(h, n):
    from age.utils.asciiarmor import AsciiArmoredInput
    data = h.bytes("data", n)
    raw = armored([data])
    inp = AsciiArmoredInput(AGE, io.BytesIO(raw))
    how = h.choose("how", ["all", "two", "bytewise", "none"])
    if how == "all":
        got = inp.read()
    elif how == "two":
        k = h.choose("k", range(0, n + 2))
        a = inp.read(k)
        h.check(len(a) == min(k, n), "stream data")
        got = a + inp.read(-1)
    elif how == "bytewise":
        got = b""
        while True:
            b = inp.read(1)
            if not b:
                break
            h.check(len(b) == 1, "stream data")
            got = got + b
    else:
        got = inp.read(n) + inp.read(5)
    h.check(got == data, "stream data")
    h.check(inp.read() == b"", "stream read to the end")
    h.check(inp.read(3) == b"", "stream read to the end")


def long(h, n):
    """Much data: fixed bytes but for the first 5, the last 5 and 4 in the middle."""
    from age.utils.asciiarmor import AsciiArmoredInput, write_ascii_armored
    fixed = bytes((i * i >> 3) % 251 for i in range(n))
    m = n // 2
    data = h.bytes("first", 5) + fixed[5:m] + h.bytes("middle", 4) + fixed[m + 4:-5] + h.bytes("last", 5)
    if n > 200000:
        raw = armored([data])
    elif h.choose("writer", ["stream", "text"]) == "stream":
        raw = armored(h.choose("parts", [[data], [data[:3000], data[3000:]], [data[i:i + 32768] for i in range(0, n, 32768)]]))
    else:
        out = io.StringIO()
        write_ascii_armored(out, AGE, data)
        raw = out.getvalue().encode("ascii")
    lines = raw.split(b"\n")
    h.check(max(len(x) for x in lines) <= 64, "line length")
    if n > 200000:
        h.check(AsciiArmoredInput(AGE, io.BytesIO(raw)).read() == data, "stream data")
    elif h.choose("reader", ["stream", "text"]) == "stream":
        inp = AsciiArmoredInput(AGE, io.BytesIO(raw))
        k = h.choose("k", [None, 1, 4096, 65536])
        got = inp.read() if k is None else inp.read(k) + inp.read(-1)
        h.check(inp.read() == b"", "stream read to the end")
        h.check(got == data, "stream data")
    else:
        got = sections(raw.decode("ascii"))
        h.check(len(got) == 1, "one section")
        h.check(got[0][1] == data, "data")


def line_ends(h, n):
    """LF or CRLF, each line its own way."""
    from age.utils.asciiarmor import AsciiArmoredInput
    data = h.bytes("data", n)
    raw = armored([data])
    parts = raw.split(b"\n")
    text = b""
    for i, p in enumerate(parts[:-1]):
        crlf = h.bool("crlf%d" % i)
        text = text + p + (b"\r\n" if h.decide(crlf) else b"\n")
    last = h.choose("last", ["kept", "dropped"])
    if last == "dropped":
        text = text[:-2] if text.endswith(b"\r\n") else text[:-1]
    inp, err = h.run(AsciiArmoredInput, AGE, io.BytesIO(text))
    h.check(err is None, "stream data")
    h.check(inp.read() == data, "stream data")
