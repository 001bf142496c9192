"""C26: the verdicts about the content's charset and type."""
import codecs
import gzip

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, Skip, require, same

import chardet

RULE = "a case is a response with a Content-Type and a body; non-trivial when the body has non-ASCII bytes and a charset applies, or it starts with a signature"
ASSUMPTIONS = ["the first 8192 bytes of decoded content are what is inspected", "Python's codecs say what a charset can encode (UTF-8 is checked by a decoder written here); codecs that aren't charsets (idna, unicode_escape...) aren't generated",
               "whether the last bytes of a cut-off sample could begin a character is decided for UTF-8 and for characters that do exist in other charsets",
               "the charset content looks like is chardet's guess when it's at least 50% sure", "content is sniffed for image signatures only when declared as image, audio or video"]
S = st.sampled_from
SIZE = 8192

REAL = ["utf-8", "UTF-8", "utf8", "iso-8859-1", "Latin1", "windows-1252", "shift_jis", "gbk", "koi8-r", "utf-16", "utf-16le", "euc-kr", "big5", "us-ascii", "iso-8859-5", "windows-1251", "euc-jp", "gb18030", "ascii", "iso-8859-6", "utf-32"]
FAKE = ["bogus", "rot13", "hex", "base64", "x-user-defined", "zlib", "none", "utf-9", "binary", "\u00e9"]
TEXT_TYPES = ["text/html", "text/plain", "Text/CSS", "text/x.y"]
JSON_TYPES = ["application/json", "application/ld+json", "APPLICATION/Problem+JSON", "text/json", "image/x+json"]
OTHER_TYPES = ["application/xjson", "application/json-seq", "application/vnd.json", "application/xml", "application/xhtml+xml", "application/octet-stream", "application/jsonp", "application/json-seq", "texthtml/x"]
SAMPLES = ["\u041f\u0440\u0438\u0432\u0435\u0442, \u043c\u0438\u0440! ", "caf\u00e9 cr\u00e8me ", "\u65e5\u672c\u8a9e\u306e\u30c6\u30ad\u30b9\u30c8", "plain ", "\u4f60\u597d\u4e16\u754c", "\u2018q\u2019 \u2014 \u20ac ", "\ud55c\uad6d\uc5b4 ", "\U0001f600", "\u00a0", "\ufeff", "{\"a\": \"\u00fc\"}", "\x1b$B", "\n\t "]


def utf8_ok(data, cut):
    """Is data UTF-8 (RFC 3629)? With `cut`, it may stop within a character."""
    i, n = 0, len(data)
    while i < n:
        b = data[i]
        if b < 0x80:
            i += 1
            continue
        if 0xc2 <= b <= 0xdf:
            need, lo, hi = 1, 0x80, 0xbf
        elif 0xe0 <= b <= 0xef:
            need, lo, hi = 2, 0xa0 if b == 0xe0 else 0x80, 0x9f if b == 0xed else 0xbf
        elif 0xf0 <= b <= 0xf4:
            need, lo, hi = 3, 0x90 if b == 0xf0 else 0x80, 0x8f if b == 0xf4 else 0xbf
        else:
            return False
        for k in range(1, need + 1):
            if i + k >= n:
                return cut
            if not lo <= data[i + k] <= hi:
                return False
            lo, hi = 0x80, 0xbf
        i += need + 1
    return True


def decodes(data, name):
    try:
        data.decode(name)
        return True
    except UnicodeError:
        return False


EXT = [b"\xab\xb1", b"\xb0\xa1", b"\x00\xdc", b"\xdc\x00", b"\xd8\x00\xdc", b"\xd8\x00", b"\xa1\xa1", b"\x30\x81\x30", b"\x81\x30", b"\x30", b"\x00\x00", b"\x00\x00\x00"]


def decodable(data, name, cut):
    if codecs.lookup(name).name == "utf-8":
        return utf8_ok(data, cut)
    if decodes(data, name):
        return True
    return cut and (any(decodes(data + bytes([b]), name) for b in range(256)) or any(decodes(data + e, name) for e in EXT))


def whole(data, name):
    """data without a final character that was cut off"""
    for k in range(4):
        if decodes(data[:len(data) - k], name):
            return data[:len(data) - k]


def known(name):
    try:
        return codecs.lookup(name)._is_text_encoding
    except LookupError:
        return False


def bodiless(m):
    code = int(m["top"][1])
    return m.get("head") or 100 <= code <= 199 or code in (204, 205, 206, 304)


def text(data, name):
    return data.decode(name).removeprefix("\ufeff")  # a byte order mark isn't part of it


def charset_model(m, ctype, charset, body):
    """(finding, its variables) or None, and whether a charset applied."""
    sample = body[:SIZE]
    low = ctype.lower()
    if bodiless(m) or m.get("no_content"):
        return None, False
    if low in ("application/json", "text/json") or low.endswith("+json"):
        effective, implicit = "utf-8", charset is None
    elif low.startswith("text/") and charset:
        effective, implicit = charset, False
    else:
        return None, False
    if not known(effective) or all(b < 0x80 for b in sample):
        return None, False
    cut = len(body) > len(sample)
    if not decodable(sample, effective, cut):
        if cut and codecs.lookup(effective).name != "utf-8" and whole(sample, effective) is not None:
            raise Skip("how far a legacy decoder looks into a final character")
        return ("CHARSET_UNDECODABLE", {"declared_charset": effective, "detected_charset": chardet.detect(sample)["encoding"] or "unknown"}), True
    inspected = whole(sample, effective) or sample
    guess = chardet.detect(inspected)
    name = guess["encoding"]
    if name and known(name) and codecs.lookup(name).name != codecs.lookup(effective).name and guess["confidence"] >= 0.5:
        if not decodes(inspected, name) or text(inspected, name) != text(inspected, effective):
            v = {"declared_charset": effective, "detected_charset": name}
            return ("CHARSET_IMPLICIT_MISMATCH", {**v, "media_type": low}) if implicit else ("CHARSET_MISMATCH", v), True
    return None, True


@st.composite
def charsets(draw):
    ctype = draw(st.one_of(S(TEXT_TYPES), S(TEXT_TYPES), S(JSON_TYPES), S(OTHER_TYPES)))
    charset = draw(st.one_of(S(REAL), S(REAL), S(REAL), S(FAKE), st.none()))
    text = "".join(draw(st.lists(st.one_of(S(SAMPLES), S(SAMPLES), st.text(max_size=4)), max_size=4)))
    text *= draw(S([1, 1, 1, 2, 8, 20]))
    enc = draw(S(["same", "same", "same", "utf-8", "windows-1252", "koi8-r", "shift_jis", "utf-16"]))
    if enc == "same":
        enc = charset if charset in REAL and not ctype.lower().endswith("json") else "utf-8"
    body = text.encode(enc, "ignore")
    how = draw(st.integers(0, 7))
    if how == 0 and body:
        i = draw(st.integers(0, len(body) - 1))
        body = body[:i] + bytes([draw(st.integers(0x80, 255))]) + body[i + draw(st.integers(0, 1)):]
    elif how == 1:
        body = body[:draw(st.integers(0, len(body)))]
    elif how == 2:
        body = draw(st.binary(max_size=12))
    if draw(st.integers(0, 2)) == 0:
        unit = "a".encode(enc)
        step = len("aa".encode(enc)) - len(unit) or 1
        pad = "a" * ((SIZE - draw(st.integers(0, 40))) // step)
        body = pad.encode(enc, "ignore") + (body if not enc.startswith(("utf-16", "utf-32")) else (text.encode(enc + ("-le" if enc[-2:] != "le" else ""), "ignore"))) * draw(S([1, 1, 3]))
        if draw(st.integers(0, 3)) == 0:
            body = body[:draw(st.integers(SIZE - 3, SIZE + 2))]
    m = lib.resp([(gen._case("Content-Type", draw(st.integers(0, 3))).encode(), (ctype + ("" if charset is None else draw(S([";charset=%s", "; Charset=%s", '; charset="%s"', "; a=b; CHARSET=%s"])) % charset)).encode("latin-1"))],
                 status=draw(S([200, 200, 200, 200, 200, 404, 206, 199, 204, 304, 205])), chunks=[])
    if draw(st.integers(0, 9)) == 0:
        m["head"] = True
    if draw(st.integers(0, 9)) == 0:
        m["no_content"] = True
    wire = body
    if draw(st.integers(0, 4)) == 0:
        m["headers"].append((b"Content-Encoding", b"gzip"))
        wire = gzip.compress(body, mtime=0)
    m["chunks"] = draw(gen.split(wire, 3))
    return m, ctype, charset, body


TEXTS = ["Привет, как дела? Это проверка кодировки текста на русском языке. Спасибо за внимание. ", "Καλημέρα σας, αυτό είναι ένα κείμενο στα ελληνικά για δοκιμή. ", "これは日本語のテキストです。文字コードを調べるためのものです。", "这是一个用来测试字符编码的中文文本。谢谢你的帮助。",
         "這是一個用來測試字元編碼的中文文字。謝謝你的幫忙。", "이것은 문자 인코딩을 시험하기 위한 한국어 텍스트입니다. ", "Ça a été déjà vu à la fête où l'élève naïf était très gêné. Le garçon a mangé à Orléans. ", "Größe, Übermut, Äpfel und Öl: süße Grüße für alle schönen Mädchen. ",
         "שלום עולם, זהו טקסט בעברית לבדיקת קידוד התווים. ", "นี่คือข้อความภาษาไทยสำหรับทดสอบการเข้ารหัสอักขระ ", "plain text that is 胃 then plain 뿟 ", "{\"a\": \"蓄\", \"bcd\": \"plain\"} "]
ACTUAL = ["utf-8", "utf-8", "utf-8-sig", "windows-1252", "koi8-r", "windows-1251", "shift_jis", "euc-jp", "gb2312", "gb18030", "big5", "euc-kr", "iso-8859-7", "iso-8859-8", "windows-1255", "tis-620", "utf-16", "utf-16-le", "utf-16-le", "iso-8859-5", "utf-32"]
CLAIMED = ["utf-8", "utf-8", "iso-8859-1", "windows-1252", "Windows-1252", "shift_jis", "euc-jp", "koi8-r", "windows-1251", "gb18030", "big5", "ISO-8859-15", "utf-16le", "utf-16", "utf-32", "utf-8-sig"]


@st.composite
def languages(draw):
    """Enough text in one language for its charset to be told apart, declared as another."""
    body = (draw(S(TEXTS)) * draw(S([1, 1, 2, 5]))).encode(draw(S(ACTUAL)), "ignore")
    if draw(st.booleans()):
        ctype, charset = draw(S(TEXT_TYPES)), draw(S(CLAIMED))
    else:
        ctype, charset = draw(S(JSON_TYPES)), draw(S(CLAIMED + [None] * 15))
    m = lib.resp([(b"Content-Type", (ctype + ("" if charset is None else ";charset=" + charset)).encode())], status=draw(S([200, 200, 200, 404])), chunks=draw(gen.split(body, 3)))
    return m, ctype, charset, body


NAMES = {"CHARSET_UNDECODABLE", "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH"}


def check(case, rec):
    m, ctype, charset, body = case
    linter = lib.lint(m)
    want, applied = charset_model(m, ctype, charset, body)
    got = [(type(n).__name__, {k: str(v) for k, v in n.vars.items() if k in ("declared_charset", "detected_charset", "media_type")}) for n in linter.notes if type(n).__name__ in NAMES]
    same(got, [want] if want else [], f"charset findings for {m['headers']} and {len(body)} bytes of content ({body[:60]!r}...{body[SIZE - 8:SIZE + 4]!r})")
    for n in linter.notes:
        if type(n).__name__ in NAMES:
            same(n.subject, "field-content-type", "subject")
    rec.nt(applied)
    rec.label(want[0] if want else "none", "cut off" if len(body) > SIZE else "whole", *(["multi-byte at the cut"] if applied and len(body) > SIZE and body[SIZE - 1] >= 0x80 else []))


# --- types --------------------------------------------------------------------------------

SIGNATURES = [(b"\x00\x00\x01\x00", "image/x-icon"), (b"\x00\x00\x02\x00", "image/x-icon"), (b"BM", "image/bmp"), (b"GIF87a", "image/gif"), (b"GIF89a", "image/gif"), (b"RIFF....WEBPVP", "image/webp"),
              (b"\x89PNG\r\n\x1a\n", "image/png"), (b"\xff\xd8\xff", "image/jpeg")]
HAVE = {t for _, t in SIGNATURES} - {"image/bmp"}
STARTS = [b"", b"<html>", b"<!-- x --><rss>", b"<?xml version='1.0'?><feed>", b"<rdf:RDF http://purl.org/rss/1.0/ http://www.w3.org/1999/02/22-rdf-syntax-ns#", b"%PDF-", b"PK\x03\x04", b"\x1aE\xdf\xa3", b"OggS\x00", b"ID3", b"RIFF....WAVE",
          b"not png", b"GIF88a", b"\x89PNG", b"B", b"\xff\xd8", b"GIF89", b"\x00\x00\x03\x00", b"RIFF....WEBP", b" GIF89a", b"\xef\xbb\xbf<rss", b"<svg>"]
TYPES = ["image/png", "image/gif", "image/jpeg", "image/webp", "image/x-icon", "image/bmp", "image/avif", "image/svg+xml", "image/tiff", "Image/PNG", "video/mp4", "audio/mpeg", "audio/ogg", "application/ogg", "text/html", "text/plain", "application/xml",
         "text/xml", "application/json", "application/octet-stream", "application/pdf", "font/woff2", "model/x", "image/xml", "image", "/", "image/", "png", "image/pjpeg"]


def signature(body):
    for sig, t in SIGNATURES:
        if len(body) >= len(sig) and all(a == b or a == 0x2e for a, b in zip(sig, body)):
            return t
    return None


def type_model(m, ctype, body):
    sample = body[:SIZE]
    low = ctype.lower()
    if bodiless(m) or m.get("no_content") or not sample or len(low.split("/")) != 2 or not all(low.split("/")):
        return None
    top, sub = low.split("/")
    if sub.endswith("+xml") or (top in ("text", "application") and sub == "xml"):
        return None
    if top not in ("image", "audio", "video") and low != "application/ogg":
        return None
    found = signature(sample)
    if found is None:
        return (low, None) if low in HAVE else None
    return (low, found) if found != low else None


@st.composite
def types(draw):
    ctype = draw(S(TYPES))
    body = draw(st.one_of(S([s for s, _ in SIGNATURES]), S(STARTS)))
    if b"...." in body:
        body = body.replace(b"....", draw(st.binary(min_size=4, max_size=4)))
    body += draw(st.one_of(S([b"", b"rest of it", b"\x00" * 40]), st.binary(max_size=6)))
    m = lib.resp([(b"content-type", (ctype + draw(S(["", "; charset=utf-8", "; a=b"]))).encode())], status=draw(S([200, 200, 200, 200, 404, 206, 204, 199, 100, 304, 205])))
    if draw(st.integers(0, 9)) == 0:
        m["head"] = True
    if draw(st.integers(0, 9)) == 0:
        m["no_content"] = True
    wire = body
    if draw(st.integers(0, 3)) == 0:
        m["headers"].append((b"Content-Encoding", b"gzip"))
        wire = gzip.compress(body, mtime=0)
    m["chunks"] = draw(gen.split(wire, 3))
    return m, ctype, body


def check_type(case, rec):
    m, ctype, body = case
    linter = lib.lint(m)
    want = type_model(m, ctype, body)
    got = [n for n in linter.notes if type(n).__name__ == "CONTENT_TYPE_MISMATCH"]
    same(len(got), 1 if want else 0, f"CONTENT_TYPE_MISMATCH findings for {m['top'][1]!r} {m['headers']} with content {body[:20]!r}")
    if want:
        same(str(got[0].vars["declared_type"]), want[0], "declared type named")
        if want[1]:
            same(str(got[0].vars["sniffed_type"]), want[1], f"type named for content {body[:20]!r}")
        else:
            require(str(got[0].vars["sniffed_type"]) not in TYPES, "content without a signature %r was said to be %s", body[:20], got[0].vars["sniffed_type"])
    rec.nt(signature(body) is not None)
    rec.label("mismatch" if want else "quiet", signature(body) or "no signature")


def enum_types(tier):
    """Every type with every beginning."""
    out = []
    for t in TYPES:
        for b in [s for s, _ in SIGNATURES] + STARTS:
            for status in (200, 206, 199):
                out.append((lib.resp([(b"Content-Type", t.encode())], status=status, chunks=[b + b"rest"]), t, b + b"rest"))
    return out


def enum_cut(tier):
    """Characters of each length at each position across the end of the sample, whole, cut short and followed by more."""
    out = []
    for cs in ("utf-8", "shift_jis", "gbk", "euc-jp", "gb18030", "utf-16le", "koi8-r", "windows-1252"):
        for ch in ("\u00e9", "\u65e5", "\U0001f600", "\u0436", "\ud55c"):
            try:
                enc = ch.encode(cs)
            except UnicodeError:
                continue
            a = "a".encode(cs)
            for at in range(SIZE - 5 * len(a), SIZE + 1, len(a)):
                for extra in (b"", a, a * 10, enc * 5):
                    for drop in range(0, len(enc)):
                        body = a * (at // len(a)) + enc[:len(enc) - drop] + extra
                        out.append((lib.resp([(b"Content-Type", f"text/plain; charset={cs}".encode())], chunks=[body]), "text/plain", cs, body))
    return out


CHECKS = [
    Check("charsets", charsets, check, n=3000, note="reference model of the charset verdicts, with chardet's guess as what the content looks like"),
    Check("languages", languages, check, n=3000, note="text in one charset declared as another"),
    Check("the sample's end", None, check, enum=enum_cut, note="characters across the end of the inspected sample"),
    Check("types", types, check_type, n=4000, note="reference table of image signatures"),
    Check("every type", None, check_type, enum=enum_types, note="every declared type with every beginning"),
]
