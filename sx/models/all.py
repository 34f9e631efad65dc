from . import crypto, encoding, iomod, keys, regex, system  # noqa: F401
