"""C16: bech32 strings round-trip and are accepted only in canonical form."""
from checks.lib import case

BOUNDS = {
    "quick": {"round trip": "hrp lengths 1..4 (and 83 with 4 symbolic characters), all hrp characters 33..126; payload lengths 0..8 (hrp lengths 1 and 4: 0..12), all bytes symbolic",
              "canonical": "every string (any code point) of length 0..7; every string hrp+'1'+data with hrp 1 (2), data up to "
                           "8 (7) arbitrary characters; long data parts (to 40 characters) over the alphabet and a wrong checksum"},
    "thorough": {"round trip": "hrp lengths 1..8 (and 83), payload lengths 0..48",
                 "canonical": "as quick with lengths 0..9, data up to 9"},
}
OUTSIDE = ["human-readable parts and payloads longer than the stated lengths"]
EXPECT_LABELS = ["round trip", "upper case round trip", "canonical", "hrp too long refused", "separator required", "bad hrp character refused"]
CHARSET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def cases(tier):
    q = tier == "quick"
    out = []
    for hn in ([1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6, 7, 8]):
        out.append(case(roundtrip, hrp_len=hn, lo=0, hi=(12 if hn in (1, 4) else 8) if q else 24))
    if not q:
        out.append(case(roundtrip, hrp_len=1, lo=25, hi=48))
    out.append(case(roundtrip, hrp_len=83, lo=0, hi=0))
    out.append(case(roundtrip, hrp_len=83, lo=32, hi=32))
    out.append(case(hrp_bounds))
    for n in range(0, 8 if q else 10):
        out.append(case(arbitrary, n=n, weight=3 + n))
    for hn, dn in ([(1, 6), (1, 7), (1, 8), (2, 7)] if q else
                   [(1, k) for k in range(6, 10)] + [(2, 8), (3, 9)]):
        out.append(case(canonical, hrp_len=hn, data_len=dn, weight=20 + dn))
    for dn in ([6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 40] if q else list(range(6, 60))):
        out.append(case(alphabet_data, data_len=dn, weight=4))
    return out


def hrp_text(h, name, n):
    return h.text(name, n, lo=33, hi=126)


def roundtrip(h, hrp_len, lo, hi):
    from age.primitives.bech32 import bech32_decode, bech32_encode
    n = h.choose("n", range(lo, hi + 1))
    hrp = h.text("hrp", min(hrp_len, 4), chars=[chr(c) for c in range(33, 127) if not 65 <= c <= 90])
    hrp = hrp + "k" * (hrp_len - 4)
    payload = h.bytes("payload", n)
    text = bech32_encode(hrp, payload)
    h.check(len(text) == hrp_len + 1 + -(-8 * n // 5) + 6, "length")
    got_hrp, got = bech32_decode(text)
    h.check(h.all(got_hrp == hrp, got == payload), "round trip")
    h.check(isinstance(got, bytes), "round trip")
    up_hrp, up = bech32_decode(text.upper())
    h.check(h.all(up_hrp == hrp, up == payload), "upper case round trip")


def hrp_bounds(h):
    from age.primitives.bech32 import bech32_decode, bech32_encode
    n = h.choose("n", [84, 85, 100])
    hrp = "k" * (n - 2) + h.text("hrp", 2, lo=97, hi=122)
    text = bech32_encode(hrp, h.bytes("payload", 3))
    _, err = h.run(bech32_decode, text)
    h.check(isinstance(err, ValueError), "hrp too long refused")
    _, err = h.run(bech32_decode, bech32_encode("", h.bytes("payload2", 3)))
    h.check(isinstance(err, ValueError), "empty hrp refused")
    _, err = h.run(bech32_decode, h.text("nosep", 10, lo=97, hi=122))
    h.check(isinstance(err, ValueError), "separator required")
    bad = h.text("bad", 1, lo=0, hi=0x1FF)
    h.assume(h.any(bad < "!", bad > "~"))
    _, err = h.run(bech32_decode, "a" + bad + "1" + "qqqqqqqq")
    h.check(isinstance(err, ValueError), "bad hrp character refused")
    bad = h.text("low", 1, lo=0, hi=0x7F)
    h.assume(h.any(bad < "!", bad > "~"))
    _, err = h.run(bech32_decode, bech32_encode(h.choose("hrp with", [bad, bad + "a", "a" + bad, "1" + bad]), h.bytes("payload3", 2)))
    h.check(isinstance(err, ValueError), "bad hrp character refused")


def accepted(h, text, result):
    """What the decoder accepted must be canonical."""
    from age.primitives.bech32 import bech32_encode
    hrp, payload = result
    h.check(h.any(text == text.lower(), text == text.upper()), "canonical")
    h.check(bech32_encode(hrp, payload) == text.lower(), "canonical")
    h.check(1 <= len(hrp) <= 83, "canonical")
    h.check(h.all(*[h.all(c >= "!", c <= "~") for c in hrp]), "canonical")


def judge(h, text):
    from age.primitives.bech32 import bech32_decode
    result, err = h.run(bech32_decode, text)
    if err is not None:
        h.check(isinstance(err, ValueError), "only ValueError")
    else:
        accepted(h, text, result)


def arbitrary(h, n):
    judge(h, h.text("text", n, hi=0xFF))


def canonical(h, hrp_len, data_len):
    judge(h, h.text("hrp", hrp_len, hi=0x7F) + "1" + h.text("data", data_len, hi=0x7F))


def alphabet_data(h, data_len):
    """Any data part over the alphabet: accepted only with the right checksum and zero padding."""
    judge(h, "a1" + h.text("data", data_len, chars=CHARSET))
