"""An independent table of the fields httplint knows: where each is defined (q = requests,
r = responses), how lines combine, and whether it is deprecated.

Shapes: list (comma-separated), single, broken (one value per line), json, sf-item, sf-list,
sf-dictionary.
"""
FIELDS = {
    'Accept': ('q', 'list', False),
    'Accept-CH': ('r', 'sf-list', False),
    'Accept-Encoding': ('q', 'list', False),
    'Accept-Language': ('q', 'list', False),
    'Accept-Patch': ('r', 'list', False),
    'Accept-Post': ('r', 'list', False),
    'Accept-Query': ('r', 'sf-list', False),
    'Accept-Ranges': ('r', 'list', False),
    'Access-Control': ('qr', 'single', True),
    'Access-Control-Allow-Credentials': ('r', 'single', False),
    'Access-Control-Allow-Headers': ('r', 'list', False),
    'Access-Control-Allow-Methods': ('r', 'list', False),
    'Access-Control-Allow-Origin': ('r', 'single', False),
    'Access-Control-Expose-Headers': ('r', 'list', False),
    'Access-Control-Max-Age': ('r', 'single', False),
    'Access-Control-Request-Headers': ('q', 'list', False),
    'Access-Control-Request-Method': ('q', 'single', False),
    'Age': ('r', 'single', False),
    'Allow': ('r', 'list', False),
    'Alt-Svc': ('r', 'list', False),
    'Authentication-Info': ('r', 'list', False),
    'Authorization': ('q', 'single', False),
    'Available-Dictionary': ('q', 'sf-item', False),
    'CDN-Cache-Control': ('r', 'sf-dictionary', False),
    'Cache-Control': ('qr', 'list', False),
    'Cache-Group-Invalidation': ('r', 'sf-list', False),
    'Cache-Groups': ('r', 'sf-list', False),
    'Cache-Status': ('r', 'sf-list', False),
    'Clear-Site-Data': ('r', 'list', False),
    'Connection': ('qr', 'list', False),
    'Content-Base': ('qr', 'single', True),
    'Content-Disposition': ('qr', 'single', False),
    'Content-Encoding': ('qr', 'list', False),
    'Content-Language': ('qr', 'list', False),
    'Content-Length': ('qr', 'single', False),
    'Content-Location': ('r', 'single', False),
    'Content-MD5': ('qr', 'single', True),
    'Content-Range': ('r', 'single', False),
    'Content-Security-Policy': ('r', 'list', False),
    'Content-Security-Policy-Report-Only': ('r', 'list', False),
    'Content-Transfer-Encoding': ('qr', 'single', True),
    'Content-Type': ('qr', 'single', False),
    'Cookie': ('q', 'broken', False),
    'Cross-Origin-Embedder-Policy': ('r', 'sf-item', False),
    'Cross-Origin-Embedder-Policy-Report-Only': ('r', 'sf-item', False),
    'Cross-Origin-Opener-Policy': ('r', 'sf-item', False),
    'Cross-Origin-Opener-Policy-Report-Only': ('r', 'sf-item', False),
    'Cross-Origin-Resource-Policy': ('r', 'single', False),
    'Date': ('qr', 'single', False),
    'Deprecation': ('r', 'sf-item', False),
    'ETag': ('qr', 'single', False),
    'Expect': ('q', 'list', False),
    'Expires': ('r', 'single', False),
    'From': ('q', 'single', False),
    'Host': ('q', 'single', False),
    'If-Match': ('q', 'list', False),
    'If-Modified-Since': ('q', 'single', False),
    'If-None-Match': ('q', 'list', False),
    'If-Range': ('q', 'single', False),
    'If-Unmodified-Since': ('q', 'single', False),
    'Keep-Alive': ('qr', 'list', True),
    'Last-Modified': ('r', 'single', False),
    'Link': ('qr', 'list', False),
    'Location': ('r', 'single', False),
    'MIME-Version': ('qr', 'single', True),
    'Max-Forwards': ('q', 'single', False),
    'NEL': ('r', 'json', False),
    'Origin': ('q', 'single', False),
    'P3P': ('r', 'single', True),
    'Permissions-Policy': ('r', 'sf-dictionary', False),
    'Pragma': ('q', 'list', True),
    'Proxy-Authenticate': ('r', 'list', False),
    'Proxy-Authentication-Info': ('r', 'list', False),
    'Proxy-Authorization': ('q', 'single', False),
    'Proxy-Status': ('r', 'sf-list', False),
    'Range': ('q', 'single', False),
    'Referer': ('q', 'single', False),
    'Referrer-Policy': ('r', 'list', False),
    'Report-To': ('r', 'json', True),
    'Reporting-Endpoints': ('r', 'sf-dictionary', False),
    'Retry-After': ('r', 'single', False),
    'Server': ('r', 'list', False),
    'Server-Timing': ('r', 'list', False),
    'Set-Cookie': ('r', 'broken', False),
    'Set-Cookie2': ('r', 'list', True),
    'SoapAction': ('q', 'single', False),
    'Speculation-Rules': ('r', 'sf-list', False),
    'Strict-Transport-Security': ('r', 'single', False),
    'Sunset': ('r', 'single', False),
    'TCN': ('r', 'list', False),
    'TE': ('q', 'list', False),
    'Trailer': ('qr', 'list', False),
    'Transfer-Encoding': ('qr', 'list', False),
    'Upgrade': ('qr', 'list', False),
    'Use-As-Dictionary': ('r', 'sf-dictionary', False),
    'User-Agent': ('q', 'single', False),
    'Vary': ('r', 'list', False),
    'Via': ('qr', 'list', False),
    'WWW-Authenticate': ('r', 'list', False),
    'Warning': ('r', 'list', True),
    'X-Cache': ('r', 'list', False),
    'X-Cache-Lookup': ('r', 'list', False),
    'X-Content-Type-Options': ('r', 'list', False),
    'X-Frame-Options': ('r', 'single', False),
    'X-Pad': ('r', 'single', True),
}

# spellings of other fields that servers and intermediaries are known to mangle
ALIASES = {
    "X-Pad-For-Netscrape-Bug": "X-Pad", "XX-Pad": "X-Pad", "X-BrowserAlignment": "X-Pad",
    "nnCoection": "connectiox", "Cneonction": "connectiox", "yyyyyyyyyy": "connectiox",
    "XXXXXXXXXX": "connectiox", "X-cnection": "connectiox", "-onnection": "connectiox", "X_cnection": "connectiox", "_onnection": "connectiox",
}


def shape(*kinds):
    return [n for n, (_, s, _) in FIELDS.items() if s in kinds]


def kinds_of(name):
    """The message kinds a field is defined for."""
    where = FIELDS[name][0] if name in FIELDS else "qr"
    return [k for k, c in (("request", "q"), ("response", "r")) if c in where]

# fields listed as deprecated or obsoleted that have no checks of their own
DEPRECATED = """
Accept-CH-Lifetime Accept-Charset C-Ext C-Man C-Opt C-PEP C-PEP-Info Content-DPR Content-ID
Content-Script-Type Content-Style-Type Content-Version Cookie2 DNT DPR Default-Style Derived-From
Differential-ID Digest Expect-CT Ext Feature-Policy GetProfile HTTP2-Settings Man Method-Check
Method-Check-Expires Opt PEP PICS-Label Pep-Info ProfileObject Protocol Protocol-Info Protocol-Query
Protocol-Request Proxy-Features Proxy-Instruction Public Public-Key-Pins Public-Key-Pins-Report-Only
Referer-Root Safe Security-Scheme SetProfile URI Viewport-Width Want-Digest Width X-Content-Security-Policy
X-Download-Options X-Meta-MSSmartTagsPreventParsing X-UA-Compatible X-Webkit-CSP X-XSS-Protection
""".split()

# fields listed as unnecessary
UNNECESSARY = """
x-aspnet-version x-aspnetmvc-version x-powered-by x-generator x-drupal-cache x-varnish x-mod-pagespeed x-pingback
x-runtime x-rack-cache x-content-encoded-by x-backend-server tcn
""".split()

# misspellings that have checks of their own but no canonical spelling
MANGLED = ["connectiox", "cteonnt-length"]

_LOWER = {n.lower(): n for n in list(FIELDS) + DEPRECATED}
_ALIAS = {k.lower(): v for k, v in ALIASES.items()}
_DEPR = {n.lower() for n in DEPRECATED} | {n.lower() for n, v in FIELDS.items() if v[2]}
_TCHAR = frozenset("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")


def target(name):
    """The canonical name of the known field this name is (or stands for), or None."""
    low = name.lower()
    if low in _ALIAS:
        low = _ALIAS[low].lower()
    return _LOWER.get(low)


def canonical(name):
    """How findings name the field: its canonical name, or as received (case aside) if unknown."""
    return target(name) or name


def known(name):
    low = name.lower()
    return low in _LOWER or low in _ALIAS or low in UNNECESSARY or low in MANGLED


def deprecated(name):
    return (target(name) or name).lower() in _DEPR


def unnecessary(name):
    return name.lower() in UNNECESSARY


def misdirected(name, kind):
    t = target(name)
    return t in FIELDS and kind not in kinds_of(t)


def is_token(name):
    return bool(name) and all(c in _TCHAR for c in name)


def wire(name):
    """A field name as recorded: the ASCII in it."""
    return name.decode("ascii", "ignore")
