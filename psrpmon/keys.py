"""The keys of a session as somebody who owns the client's private key sees them on the wire.

Every private key that is made in this process is recorded, so the session key can be taken out of the transmitted
EncryptedSessionKey without asking the library.  Making keys is slow: while a supply is set, its keys are handed out.
"""

import base64

from cryptography.hazmat.primitives.asymmetric import padding, rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

_generate = rsa.generate_private_key
made = {}  # modulus -> private key
supply = []
_next = [0]


def generate_private_key(*args, **kwargs):
    k = None
    if supply and args == () and kwargs.get("public_exponent") == 65537 and kwargs.get("key_size") == 2048:
        k = supply[_next[0] % len(supply)]
        _next[0] += 1
    if k is None:
        k = _generate(*args, **kwargs)
    made[k.public_key().public_numbers().n] = k
    return k


rsa.generate_private_key = generate_private_key


def stock(n):
    for _ in range(n):
        supply.append(_generate(public_exponent=65537, key_size=2048))


def private_of(text):
    """The private key for a transmitted public key."""
    blob = base64.b64decode(text, validate=True)
    if blob[:16] != b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00" or len(blob) != 276:
        raise ValueError("not a 2048 bit RSA public key blob")
    if int.from_bytes(blob[16:20], "little") != 65537:
        raise ValueError("unusual exponent")
    return made.get(int.from_bytes(blob[20:], "little"))


def session_key(private, text):
    blob = base64.b64decode(text, validate=True)
    if blob[:12] != b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" or len(blob) != 268:
        raise ValueError("not an AES session key blob")
    return private.decrypt(blob[12:][::-1], padding.PKCS1v15())


def open_sealed(key, text):
    """The UTF-16 (big endian) text of a secure string. ValueError: not sealed with this key."""
    raw = base64.b64decode(text, validate=True)
    if not raw or len(raw) % 16:
        raise ValueError("%d bytes are no AES-CBC text" % len(raw))
    d = Cipher(algorithms.AES(key), modes.CBC(bytes(16))).decryptor()
    plain = d.update(raw) + d.finalize()
    n = plain[-1]
    if not 1 <= n <= 16 or plain[-n:] != bytes([n]) * n:
        raise ValueError("wrong padding")
    plain = plain[:-n]
    if len(plain) % 2:
        raise ValueError("odd length")
    out = bytearray(plain)
    out[0::2], out[1::2] = plain[1::2], plain[0::2]
    return bytes(out)


def needles(data):
    """How bytes could show up in clear: as they are, in hex, in base64 at any alignment."""
    out = [data, data.hex().encode(), data.hex().upper().encode()]
    for off in range(3):
        b = base64.b64encode(bytes(off) + data)
        # without the characters that also depend on the neighbours
        lo = 0 if off == 0 else 2 if off == 1 else 3
        hi = len(b) - (0 if (off + len(data)) % 3 == 0 else 4 if (off + len(data)) % 3 else 0)
        core = b[lo + (4 if off else 0) if off else 0 : hi]
        if len(core) >= 8:
            out.append(core)
    return out
