"""Search for a secret in real output (no z3)."""
import base64


def occurs(hay, secret, least=8):
    """A part of `least` bytes or more of the secret, plainly or in a common encoding, within hay."""
    n = len(secret)
    distinct = 5 if least > 4 else 3
    if n < least or len(set(secret)) < distinct:
        return False
    low = hay.lower()
    from_b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
    for i in range(0, n - least + 1):
        piece = secret[i:i + least]
        if len(set(piece)) < distinct:
            continue
        if piece in hay or piece[::-1] in hay:
            return True
        if piece.hex().encode() in low:
            return True
        for pad in range(3):
            b = base64.b64encode(bytes(pad) + piece)
            b = b[(0, 2, 3)[pad]:-2 if (pad + least) % 3 else None]
            b = b[:len(b) - (1 if b.endswith(b"=") else 0)]
            if len(b) >= min(least, 8) and (b in hay or b.replace(b"+", b"-").replace(b"/", b"_") in hay):
                return True
        for sh in range(5):
            bits = int.from_bytes(piece, "big") & ((1 << (8 * least - sh)) - 1)
            k = (8 * least - sh) // 5
            bits >>= (8 * least - sh) - 5 * k
            w = "".join(from_b32[(bits >> (5 * (k - 1 - j))) & 31] for j in range(k)).encode()
            if w in low:
                return True
        if repr(piece)[2:-1].encode() in hay:
            return True
    if str(list(secret))[1:-1].encode() in hay:
        return True
    return False
