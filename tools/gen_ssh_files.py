"""Write checks/data/ssh_files.json: example contents of SSH key files (run once with /opt/venv; the result is committed)."""
import base64
import json
import os
import subprocess

from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, ed448, rsa, x25519
from cryptography.hazmat.primitives.serialization import BestAvailableEncryption, Encoding, NoEncryption, PrivateFormat, PublicFormat, load_pem_private_key

HERE = os.path.dirname(os.path.abspath(__file__))
pool = [load_pem_private_key(open(os.path.join(HERE, "..", "sx", "data", "rsa%d.pem" % i), "rb").read(), None) for i in (0, 1)]
P, O, T = PrivateFormat.PKCS8, PrivateFormat.OpenSSH, PrivateFormat.TraditionalOpenSSL
none, pw = NoEncryption(), BestAvailableEncryption(b"secret")
ed = ed25519.Ed25519PrivateKey.from_private_bytes(bytes(range(32)))
out = {}


def put(name, data):
    out[name] = base64.b64encode(data).decode("ascii")


for name, key in (("rsa", pool[1]), ("ed", ed), ("ec256", ec.generate_private_key(ec.SECP256R1())), ("ec384", ec.generate_private_key(ec.SECP384R1())),
                  ("dsa", dsa.generate_private_key(1024)), ("x25519", x25519.X25519PrivateKey.generate()), ("ed448", ed448.Ed448PrivateKey.generate())):
    put(name + " pkcs8", key.private_bytes(Encoding.PEM, P, none))
    put(name + " pkcs8 encrypted", key.private_bytes(Encoding.PEM, P, pw))
    put(name + " public pem", key.public_key().public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo))
    if name not in ("x25519", "ed448"):
        put(name + " openssh", key.private_bytes(Encoding.PEM, O, none))
        put(name + " openssh encrypted", key.private_bytes(Encoding.PEM, O, pw))
        put(name + " pub", key.public_key().public_bytes(Encoding.OpenSSH, PublicFormat.OpenSSH) + b" me\n")
    if name in ("rsa", "ec256", "dsa"):
        put(name + " pem", key.private_bytes(Encoding.PEM, T, none))
        put(name + " pem encrypted", key.private_bytes(Encoding.PEM, T, pw))
small = rsa.generate_private_key(65537, 512)
put("rsa small", small.private_bytes(Encoding.PEM, T, none))
put("rsa der", pool[1].private_bytes(Encoding.DER, T, none))
for name, how in (("ec112 pem", "ecparam -name secp112r1 -genkey -noout"), ("dh pkcs8", "genpkey -algorithm DH -pkeyopt group:ffdhe2048"), ("sm2 pkcs8", "genpkey -algorithm SM2"),
                  ("x448 pkcs8", "genpkey -algorithm x448"), ("ec explicit pem", "ecparam -name prime256v1 -param_enc explicit -genkey -noout")):
    put(name, subprocess.run(["openssl"] + how.split(), stdout=subprocess.PIPE, check=True).stdout)
with open(os.path.join(HERE, "..", "checks", "data", "ssh_files.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
