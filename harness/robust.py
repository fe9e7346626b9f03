from v8serialize import DecodeV8SerializeError, loads


def decoded(S, d):
    try:
        loads(d)
        S.reached("value")
    except DecodeV8SerializeError as e:
        S.reached("error")
        S.check(S.all([e.position >= 0, e.position <= len(d)]), "error position outside the data")
        S.check(bytes(e.data) == d, "the error carries other data")


def any_bytes(S, n):
    """loads() of any n bytes: a value or DecodeV8SerializeError inside the data."""
    decoded(S, S.bytes("d", n))


def any_payload(S, n, tags=None, pres=("",), version=15):
    """As any_bytes, behind a valid header and one of the given starts."""
    pre = S.choice("pre", pres).encode("latin-1")
    first = b"" if tags is None else bytes([S.choice("tag", tags)])
    decoded(S, b"\xff" + bytes([version]) + pre + first + S.bytes("d", n))
