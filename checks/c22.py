"""C22: content signatures and record files. Oracle: hashlib and base64 for the digests, the csv module of the standard library for the record lines."""
import base64
import csv
import hashlib
import os

from hypothesis import strategies as st

from vlib import Check
from pkm.api.distributions.distinfo import DistInfo, Record, RecordsFileConfiguration
from pkm.utils.hashes import HashSignature

CHECK = Check("C22", "contents (sizes around the read buffer, one-bit changes, truncations, extensions) times algorithms times encodings, and record files over odd paths; "
                     "non-trivial = the content is not empty, or a path needs quoting", workers=4)

ALGS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256", "sha3_512"]
content = st.one_of(st.binary(max_size=30), st.tuples(st.sampled_from([1, 2, 3]), st.sampled_from([-1, 0, 1]), st.sampled_from([8192, 65536, 131072]), st.binary(min_size=1, max_size=4)).map(
    lambda c: (c[3] * (c[0] * c[2]))[:c[0] * c[2] + c[1]]))
change = st.one_of(st.just(("same",)), st.tuples(st.just("bit"), st.floats(0, 1), st.integers(0, 7)), st.just(("cut",)), st.just(("add", b"\0")), st.just(("add", b"\n")), st.just(("cr",)), st.just(("empty",)), st.just(("prepend",)),
                   st.tuples(st.just("swap"), st.floats(0, 1)))


def changed(data, c):
    b = bytearray(data)
    i = min(int(c[1] * len(b)), len(b) - 1) if c[0] in ("bit", "swap") else 0
    if c[0] == "bit" and b:
        b[i] ^= 1 << c[2]
    elif c[0] == "cut":
        b = b[:-1]
    elif c[0] == "add":
        b += c[1]
    elif c[0] == "cr":
        b = bytearray(data.replace(b"\n", b"\r\n"))
    elif c[0] == "empty":
        b = bytearray()
    elif c[0] == "prepend":
        b = b"\xef\xbb\xbf" + b
    elif c[0] == "swap" and b:
        b[0], b[i] = b[i], b[0]
    return bytes(b)


@CHECK.test("signatures", st.tuples(content, st.sampled_from(ALGS), st.booleans(), change, st.sampled_from(["=", " = ", "= ", "\t="])), quick=3000, thorough=40000)
def check_signatures(case, t):
    data, alg, hexed, change_, delim = case
    f = t.scratch() / "f"
    f.write_bytes(data)
    h = hashlib.new(alg, data)
    want = h.hexdigest() if hexed else base64.urlsafe_b64encode(h.digest()).decode().rstrip("=")
    sig = (HashSignature.compute_hex_encoded if hexed else HashSignature.compute_urlsafe_base64_nopad_encoded)(alg, f)
    t.nontrivial(len(data) > 0)
    t.eq(str(sig), f"{alg}={want}", "the computed signature", key="computed")
    parse = HashSignature.parse_hex_encoded if hexed else HashSignature.parse_urlsafe_base64_nopad_encoded
    t.eq(parse(str(sig)), sig, "the parsed signature", key="parse")
    t.eq(parse(f"{alg}{delim}{want}"), sig, "the parsed signature", key="parse")
    created = HashSignature.create_hex_encoded(alg, want) if hexed else HashSignature.create_urlsafe_base64_nopad_encoded(alg, h)
    t.eq(created, sig, "the created signature", key="parse")
    other = changed(data, change_)
    g = f.with_name("g")
    g.write_bytes(other)
    t.label(change_[0])
    for s in (sig, parse(str(sig)), created):
        t.eq(s.validate_against(f), True, "a signature and the file it was computed for", key="refused")
        t.eq(s.validate_against(g), other == data, f"a signature and a file changed by {change_}", key="accepted")


@CHECK.test("malformed", st.tuples(st.sampled_from(["md6", "sha", "", "SHA 256", "__name__", "new", "shake_128", "algorithms_guaranteed", "sha-256", "none", "crc32", "open"]), st.binary(max_size=8), st.booleans(),
                                   st.sampled_from(["valid", "none", "two", "empty", "text"])), quick=500, thorough=4000)
def check_malformed(case, t):
    """an unknown algorithm or a text that is not a signature never accepts a file"""
    alg, data, hexed, kind = case
    f = t.scratch() / "f"
    f.write_bytes(data)
    h = hashlib.sha256(data)
    value = h.hexdigest() if hexed else base64.urlsafe_b64encode(h.digest()).decode().rstrip("=")
    text = {"valid": f"{alg}={value}", "none": value, "two": f"sha256={value}=x", "empty": "sha256=", "text": "sha256"}[kind]
    parse = HashSignature.parse_hex_encoded if hexed else HashSignature.parse_urlsafe_base64_nopad_encoded
    t.nontrivial(True)
    try:
        accepted = parse(text).validate_against(f)
    except (KeyError, ValueError, TypeError, AttributeError):
        return
    t.check(not accepted, f"the signature {text!r} accepted a file", key="accepted")


seg = st.sampled_from(["a", "b.py", "with space", "comma,name", 'quo"te', "é", "'", "#x", "line\nbreak", " lead", "trail ", '"', ",", "a=b", "%41", "x;y", "\\"])
path = st.lists(seg, min_size=1, max_size=3).map("/".join)


def no_conflict(paths):
    paths = set(paths)
    return not any("/".join(p.split("/")[:i]) in paths for p in paths for i in range(1, p.count("/") + 1))


@CHECK.test("records", st.tuples(st.dictionaries(path, st.binary(max_size=10), min_size=1, max_size=5).filter(no_conflict), st.lists(st.tuples(path, st.sampled_from(["", "sha256=abc_-", "md5=00"]), st.one_of(st.none(), st.integers(0, 10**12))), max_size=3),
                                 st.booleans()), quick=1500, thorough=20000)
def check_records(case, t):
    files, extra, up = case
    scratch = t.scratch()
    site = scratch / "site"
    info = site / "pkg-1.0.dist-info"
    info.mkdir(parents=True)
    base = scratch / "bin" if up else site
    for p, c in files.items():
        (base / p).parent.mkdir(parents=True, exist_ok=True)
        (base / p).write_bytes(c)
    t.nontrivial(any(set(p) & set(',"\n') for p in files))
    di = DistInfo.load(info)
    cfg = di.load_record_cfg()
    for p, h, n in extra:
        cfg.records.append(Record(p, HashSignature.parse_urlsafe_base64_nopad_encoded(h) if h else None, n))
    cfg.sign_files([base / p for p in files] + [base / p.split("/")[0] for p in files if "/" in p], site)
    written = list(cfg.records)
    cfg.save()
    with open(info / "RECORD", newline="", encoding="utf-8") as fd:
        rows = list(csv.reader(fd))
    want = [[p, h, "" if n is None else str(n)] for p, h, n in extra]
    signed = [[("../bin/" if up else "") + p, "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(c).digest()).decode().rstrip("="), str(len(c))] for p, c in files.items()]
    t.eq(rows[:len(want)], want, "the added record lines", key="written")
    t.eq(rows[len(want):], signed, "the signed record lines", key="written")
    read = DistInfo.load(info).load_record_cfg().records
    t.eq(read, written, "the records that are read back", key="read")
    for r in read[len(extra):]:
        f = r.absolute_path(di)
        t.eq(os.path.realpath(f), os.path.realpath(site / r.file), f"the file of the record {r.file!r}", key="absolute")
        t.check(r.hash_signature.validate_against(f), f"the record of {r.file!r} does not accept its file", key="absolute")
    # and the other way: lines written by others
    with open(info / "RECORD", "w", newline="", encoding="utf-8") as fd:
        csv.writer(fd, lineterminator="\n").writerows(want + signed)
    t.eq([[r.file, str(r.hash_signature or ""), "" if r.length is None else str(r.length)] for r in DistInfo.load(info).load_record_cfg().records], want + signed, "the records of another writer", key="foreign")
