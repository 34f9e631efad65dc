"""C06: the header parser accepts only complete, well-formed headers."""
from checks.lib import case

BOUNDS = {"quick": {"free input": "every byte string of 0..3 bytes alone and of 0..4 bytes behind the version line", "first line": "the version line with any one byte replaced, inserted or removed, any text of 0..2 bytes around it",
                    "templates": "headers of one to three stanzas with up to 3 symbolic bytes in each of: stanza line, body line, before the footer, footer, MAC, behind the footer"},
          "thorough": {"free input": "every byte string of 0..6 bytes behind the version line", "templates": "up to 4 symbolic bytes per hole, pairs of holes", "rest": "as quick"}}
OUTSIDE = ["longer wholly arbitrary inputs"]
EXPECT_LABELS = ["version line", "footer ends the header", "stanzas are the lines before the footer", "type not empty", "arguments of the line",
                 "body of the lines", "MAC of the footer line", "nothing behind the footer consumed"]
INTRO = b"age-encryption.org/v1\n"
MAC = b"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"


def cases(tier):
    q = tier == "quick"
    out = [case(free, n=n) for n in range(0, 4 if q else 5)]
    out += [case(behind_intro, n=n, weight=2 + n * n) for n in range(0, 5 if q else 7)]
    out += [case(intro, how=x) for x in ("replace", "insert", "remove", "around")]
    for name in TEMPLATES:
        for n in range(1, 4 if q else 5):
            out.append(case(template, at=name, n=n, weight=3 + n * n))
    return out


TEMPLATES = {
    # {} is where the symbolic bytes go
    "stanza line": [INTRO + b"-> X", b" abc\nAAAA\n--- " + MAC + b"\nrest"],
    "stanza start": [INTRO, b"X abc\nAAAA\n-> b\n--- " + MAC + b"\nrest"],
    "stanza end": [INTRO + b"-> X abc", b"\nAAAA\n--- " + MAC + b"\nrest"],
    "no arguments": [INTRO + b"->", b"\nAAAA\n--- " + MAC + b"\nrest"],
    "body": [INTRO + b"-> X abc\nAA", b"\nBB\n--- " + MAC + b"\nrest"],
    "body start": [INTRO + b"-> X abc\n", b"AA\n--- " + MAC + b"\nrest"],
    "before first stanza": [INTRO, b"\n-> X abc\nAA\n--- " + MAC + b"\nrest"],
    "footer prefix": [INTRO + b"-> X abc\nAA\n-", b" " + MAC + b"\nrest"],
    "footer start": [INTRO + b"-> X abc\nAA\n", b"--- " + MAC + b"\nrest"],
    "footer gap": [INTRO + b"-> X abc\nAA\n---", MAC + b"\nrest"],
    "mac": [INTRO + b"-> X abc\nAA\n--- A", b"\nrest"],
    "mac end": [INTRO + b"-> X abc\nAA\n--- " + MAC, b"\nrest"],
    "unterminated": [INTRO + b"-> X abc\nAA\n--- " + MAC, b""],
    "footer missing": [INTRO + b"-> X abc\nAA\n", b""],
    "second header": [INTRO + b"-> X abc\nAA\n--- " + MAC + b"\n", b"\n-> Y\n--- " + MAC + b"\n"],
}


def judge(h, data):
    """data: the whole input.  Whatever is returned must be what the lines say."""
    import io
    from age.format import load_header
    from age.primitives.encode import decode
    stream = io.BytesIO(data)
    r, err = h.run(load_header, stream)
    if err is not None:
        h.check(isinstance(err, Exception), "either raises or returns")
        return
    hd, mac = r
    rest = stream.read()
    # reference reading of the same bytes
    lines = []
    left = data
    while len(left):
        i = left.find(b"\n")
        k = len(left) if i < 0 else i + 1
        lines.append(left[:k])
        left = left[k:]
    h.check(len(lines) > 0, "version line")
    first = lines[0]
    h.check(first.strip() == INTRO[:-1], "version line")
    want = []
    footer = None
    used = len(first)
    for raw in lines[1:]:
        used += len(raw)
        if raw.startswith(b"---"):
            footer = raw
            break
        if raw.startswith(b"->"):
            words = raw[2:].decode("utf-8").split()
            h.check(len(words) > 0, "type not empty")
            want.append([words[0], words[1:], ""])
        elif want:
            want[-1][2] = want[-1][2] + raw.decode("utf-8").strip()
    h.check(footer is not None, "footer ends the header")
    words = footer.decode("utf-8").split()
    h.check(len(words) == 2 and words[0] == "---", "footer ends the header")
    h.check(footer.decode("utf-8").startswith("--- " + words[1]), "footer ends the header")
    h.check(mac == decode(words[1]), "MAC of the footer line")
    h.check(len(hd.recipients) == len(want), "stanzas are the lines before the footer")
    for (t, args, body), got in zip(want, hd.recipients):
        h.check(len(got.type) > 0, "type not empty")
        h.check(got.type == t, "stanzas are the lines before the footer")
        h.check(len(got.arguments) == len(args), "arguments of the line")
        for x, y in zip(args, got.arguments):
            h.check(x == y, "arguments of the line")
        h.check(got.body == body, "body of the lines")
    h.check(rest == data[used:], "nothing behind the footer consumed")


def free(h, n):
    judge(h, h.bytes("data", n))


def behind_intro(h, n):
    judge(h, INTRO + h.bytes("data", n))


def intro(h, how):
    rest = b"-> X abc\nAAAA\n--- " + MAC + b"\nrest"
    k = h.choose("k", range(len(INTRO)) if how != "around" else range(5))
    if how == "replace":
        first = INTRO[:k] + h.bytes("c", 1) + INTRO[k + 1:]
    elif how == "insert":
        first = INTRO[:k] + h.bytes("c", 1) + INTRO[k:]
    elif how == "remove":
        first = INTRO[:k] + INTRO[k + 1:]
    else:
        a, b = ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2))[k]
        first = h.bytes("front", a) + INTRO[:-1] + h.bytes("back", b) + b"\n"
    judge(h, first + rest)


def template(h, at, n):
    a, b = TEMPLATES[at]
    judge(h, a + h.bytes("hole", n) + b)
