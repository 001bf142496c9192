"""The published grammars of the fields httplint checks, transcribed from the specifications."""
from functools import lru_cache

from pbt.abnf import Grammar

CORE = r'''
ALPHA = %x41-5A / %x61-7A
DIGIT = %x30-39
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
DQUOTE = %x22
SP = %x20
HTAB = %x09
WSP = SP / HTAB
VCHAR = %x21-7E
'''

RFC3986 = r'''
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part = "//" authority path-abempty / path-absolute / path-rootless / path-empty
URI-reference = URI / relative-ref
absolute-URI = scheme ":" hier-part [ "?" query ]
relative-ref = relative-part [ "?" query ] [ "#" fragment ]
relative-part = "//" authority path-abempty / path-absolute / path-noscheme / path-empty
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority = [ userinfo "@" ] host [ ":" port ]
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
host = IP-literal / IPv4address / reg-name
port = *DIGIT
IP-literal = "[" ( IPv6address / IPvFuture ) "]"
IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPv6address = 6( h16 ":" ) ls32
 / "::" 5( h16 ":" ) ls32
 / [ h16 ] "::" 4( h16 ":" ) ls32
 / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32
 / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32
 / [ *3( h16 ":" ) h16 ] "::" h16 ":" ls32
 / [ *4( h16 ":" ) h16 ] "::" ls32
 / [ *5( h16 ":" ) h16 ] "::" h16
 / [ *6( h16 ":" ) h16 ] "::"
h16 = 1*4HEXDIG
ls32 = ( h16 ":" h16 ) / IPv4address
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
reg-name = *( unreserved / pct-encoded / sub-delims )
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty = ""
segment = *pchar
segment-nz = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
pct-encoded = "%" HEXDIG HEXDIG
unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
'''

# without folding and obs-*: neither can occur in an HTTP field
RFC5322 = r'''
m-quoted-pair = "\" (VCHAR / WSP)
FWS = 1*WSP
m-ctext = %d33-39
'''.replace("m-ctext = %d33-39", "m-ctext = %x21-27 / %x2A-5B / %x5D-7E") + r'''
ccontent = m-ctext / m-quoted-pair / m-comment
m-comment = "(" *([FWS] ccontent) [FWS] ")"
CFWS = (1*([FWS] m-comment) [FWS]) / FWS
atext = ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "/" / "=" / "?" / "^" / "_" / "`" / "{" / "|" / "}" / "~"
atom = [CFWS] 1*atext [CFWS]
dot-atom-text = 1*atext *("." 1*atext)
dot-atom = [CFWS] dot-atom-text [CFWS]
qtext = %x21 / %x23-5B / %x5D-7E
qcontent = qtext / m-quoted-pair
m-quoted-string = [CFWS] DQUOTE *([FWS] qcontent) [FWS] DQUOTE [CFWS]
word = atom / m-quoted-string
phrase = 1*word
mailbox = name-addr / addr-spec
name-addr = [display-name] angle-addr
angle-addr = [CFWS] "<" addr-spec ">" [CFWS]
display-name = phrase
addr-spec = local-part "@" domain
local-part = dot-atom / m-quoted-string
domain = dot-atom / domain-literal
domain-literal = [CFWS] "[" *([FWS] dtext) [FWS] "]" [CFWS]
dtext = %x21-5A / %x5E-7E
'''

RFC5646 = r'''
Language-Tag = langtag / privateuse / grandfathered
langtag = language ["-" script] ["-" region] *("-" variant) *("-" extension) ["-" privateuse]
language = 2*3ALPHA ["-" extlang] / 4ALPHA / 5*8ALPHA
extlang = 3ALPHA *2("-" 3ALPHA)
script = 4ALPHA
region = 2ALPHA / 3DIGIT
variant = 5*8alphanum / (DIGIT 3alphanum)
extension = singleton 1*("-" (2*8alphanum))
singleton = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
privateuse = "x" 1*("-" (1*8alphanum))
grandfathered = irregular / regular
irregular = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian" / "i-hak" / "i-klingon" / "i-lux" / "i-mingo"
 / "i-navajo" / "i-pwn" / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE"
regular = "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu" / "zh-hakka" / "zh-min" / "zh-min-nan" / "zh-xiang"
alphanum = ALPHA / DIGIT
'''

HTTP = r'''
OWS = *( SP / HTAB )
BWS = OWS
RWS = 1*( SP / HTAB )
obs-text = %x80-FF
tchar = "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~" / DIGIT / ALPHA
token = 1*tchar
quoted-string = DQUOTE *( qdtext / quoted-pair ) DQUOTE
qdtext = HTAB / SP / %x21 / %x23-5B / %x5D-7E / obs-text
quoted-pair = "\" ( HTAB / SP / VCHAR / obs-text )
comment = "(" *( ctext / quoted-pair / comment ) ")"
ctext = HTAB / SP / %x21-27 / %x2A-5B / %x5D-7E / obs-text
parameters = *( OWS ";" OWS [ parameter ] )
parameter = token "=" ( token / quoted-string )
qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
weight = OWS ";" OWS "q=" qvalue
media-type = token "/" token parameters
media-range = ( "*/*" / ( token "/*" ) / ( token "/" token ) ) parameters
Accept = media-range [ weight ]
Accept-Encoding = ( token / "*" ) [ weight ]
language-range = (1*8ALPHA *("-" 1*8alphanum)) / "*"
Accept-Language = language-range [ weight ]
auth-param = token BWS "=" BWS ( token / quoted-string )
token68 = 1*( ALPHA / DIGIT / "-" / "." / "_" / "~" / "+" / "/" ) *"="
credentials = token [ 1*SP ( token68 / [ auth-param *( OWS "," OWS auth-param ) ] ) ]
credentials-lenient = token [ 1*SP ( token68 / [ ( "," / auth-param ) *( OWS "," [ OWS auth-param ] ) ] ) ]
partial-URI = relative-part [ "?" query ]
HTTP-date = IMF-fixdate / obs-date
IMF-fixdate = day-name "," SP date1 SP time-of-day SP GMT
day-name = %s"Mon" / %s"Tue" / %s"Wed" / %s"Thu" / %s"Fri" / %s"Sat" / %s"Sun"
date1 = 2DIGIT SP month SP 4DIGIT
month = %s"Jan" / %s"Feb" / %s"Mar" / %s"Apr" / %s"May" / %s"Jun" / %s"Jul" / %s"Aug" / %s"Sep" / %s"Oct" / %s"Nov" / %s"Dec"
GMT = %s"GMT"
time-of-day = 2DIGIT ":" 2DIGIT ":" 2DIGIT
obs-date = rfc850-date / asctime-date
rfc850-date = day-name-l "," SP date2 SP time-of-day SP GMT
day-name-l = %s"Monday" / %s"Tuesday" / %s"Wednesday" / %s"Thursday" / %s"Friday" / %s"Saturday" / %s"Sunday"
date2 = 2DIGIT "-" month "-" 2DIGIT
asctime-date = day-name SP date3 SP time-of-day SP 4DIGIT
date3 = month SP ( 2DIGIT / ( SP DIGIT ) )
entity-tag = [ %s"W/" ] opaque-tag
opaque-tag = DQUOTE *etagc DQUOTE
etagc = "!" / %x23-7E / obs-text
expectation = token [ "=" ( token / quoted-string ) parameters ]
product = token [ "/" token ]
User-Agent = product *( RWS ( product / comment ) )
transfer-parameter = token BWS "=" BWS ( token / quoted-string )
transfer-coding = token *( OWS ";" OWS transfer-parameter )
t-codings = "trailers" / ( transfer-coding [ weight ] )
protocol = token [ "/" token ]
received-protocol = [ token "/" ] token
Via = received-protocol RWS token [ ":" port ] [ RWS comment ]
Via-lenient = received-protocol RWS ( token / host ) [ ":" port ] [ RWS comment ]
directive = token [ "=" ( token / quoted-string ) ]
warning-value = 3DIGIT SP warn-agent SP quoted-string [ SP DQUOTE HTTP-date DQUOTE ]
warn-agent = host [ ":" port ] / token
link-value = "<" URI-Reference ">" *( OWS ";" OWS link-param )
link-param = token [ "=" ( token / quoted-string ) ]
link-value-lenient = "<" URI-Reference ">" *( OWS ";" OWS link-param-lenient )
link-param-lenient = token BWS [ "=" BWS ( token / quoted-string ) ]
alt-value = %s"clear" / ( token "=" quoted-string *( OWS ";" OWS parameter ) )
disposition = token *( OWS ";" OWS parameter )
disposition-lenient = token *( OWS ";" OWS token OWS "=" OWS ( token / quoted-string ) )
base64 = ALPHA / DIGIT / "+" / "/"
Content-MD5 = 21base64 ( %s"A" / %s"Q" / %s"g" / %s"w" ) "=="
Content-MD5-lenient = 22base64 "=="
csp-directive = 1*( ALPHA / DIGIT / "-" ) [ 1*WSP csp-value ]
csp-value = *( WSP / %x21-2B / %x2D-3A / %x3C-7E )
CSP = csp-directive *( OWS ";" [ OWS csp-directive ] )
metric = token *( OWS ";" OWS metric-param )
metric-param = token "=" ( token / quoted-string )
metric-lenient = token *( OWS ";" OWS [ token OWS [ "=" OWS ( token / quoted-string ) ] ] )
sts-directive = token [ OWS "=" OWS ( token / quoted-string ) ]
STS = [ sts-directive ] *( OWS ";" OWS [ sts-directive ] )
XFO = "DENY" / "SAMEORIGIN" / ( "ALLOW-FROM" RWS scheme "://" host [ ":" port ] )
ACAC = %s"true"
nosniff = "nosniff"
if-match = "*" / entity-tag
if-range = entity-tag / HTTP-date
retry-after = HTTP-date / 1*DIGIT
Content-Location = absolute-URI / partial-URI
host-field = host [ ":" port ]
ACAO = "*" / %s"null" / ( scheme "://" host [ ":" port ] )
origin = %s"null" / ( scheme "://" host [ ":" port ] )
content-range = token SP ( ( 1*DIGIT "-" 1*DIGIT "/" ( 1*DIGIT / "*" ) ) / ( "*/" 1*DIGIT ) )
byte-range = 1*DIGIT "-" [ 1*DIGIT ] / "-" 1*DIGIT
range = token "=" byte-range *( OWS "," OWS byte-range )
range-lenient = token "=" OWS byte-range *( OWS "," OWS byte-range )
digits = 1*DIGIT
'''

# field: (rule for the value, or for each member of a list; rule for what's tolerated beyond it)
FIELDS = {
    "Accept": ("Accept", None), "Accept-Encoding": ("Accept-Encoding", None), "Accept-Language": ("Accept-Language", None),
    "Accept-Patch": ("media-type", None), "Accept-Post": ("media-range", None), "Accept-Ranges": ("token", None),
    "Access-Control-Allow-Credentials": ("ACAC", None), "Access-Control-Allow-Headers": ("token", None),
    "Access-Control-Allow-Methods": ("token", None), "Access-Control-Expose-Headers": ("token", None),
    "Access-Control-Request-Headers": ("token", None), "Access-Control-Request-Method": ("token", None),
    "Allow": ("token", None), "Alt-Svc": ("alt-value", None), "Authentication-Info": ("auth-param", None),
    "Authorization": ("credentials", "credentials-lenient"), "Cache-Control": ("directive", None),
    "Clear-Site-Data": ("quoted-string", None), "Connection": ("token", None),
    "Content-Disposition": ("disposition", "disposition-lenient"), "Content-Encoding": ("token", None),
    "Content-Language": ("Language-Tag", None), "Content-Location": ("Content-Location", None),
    "Content-MD5": ("Content-MD5", "Content-MD5-lenient"), "Content-Security-Policy": ("CSP", None),
    "Content-Security-Policy-Report-Only": ("CSP", None), "Content-Type": ("media-type", None), "ETag": ("entity-tag", None),
    "Expect": ("expectation", None), "From": ("mailbox", None), "Host": ("host-field", None), "If-Match": ("if-match", None),
    "If-None-Match": ("if-match", None), "If-Modified-Since": ("HTTP-date", None), "If-Unmodified-Since": ("HTTP-date", None),
    "If-Range": ("if-range", None), "Keep-Alive": ("parameter", None), "Link": ("link-value", "link-value-lenient"),
    "Location": ("URI-reference", None), "Max-Forwards": ("digits", None), "Pragma": ("directive", None),
    "Proxy-Authenticate": ("credentials", "credentials-lenient"), "Proxy-Authentication-Info": ("auth-param", None),
    "Proxy-Authorization": ("credentials", "credentials-lenient"), "Referer": ("Content-Location", None),
    "Referrer-Policy": ("token", None), "Retry-After": ("retry-after", None), "Server": ("User-Agent", None),
    "Server-Timing": ("metric", "metric-lenient"), "Strict-Transport-Security": ("STS", None), "TE": ("t-codings", None),
    "Trailer": ("token", None), "Transfer-Encoding": ("transfer-coding", None), "Upgrade": ("protocol", None),
    "User-Agent": ("User-Agent", None), "Vary": ("token", None), "Via": ("Via", "Via-lenient"), "Warning": ("warning-value", None),
    "WWW-Authenticate": ("credentials", "credentials-lenient"), "X-Content-Type-Options": ("nosniff", None), "X-Frame-Options": ("XFO", None),
}

# fields that say what's wrong in findings of their own: the rule, and the findings
OWN = {
    "Age": ("digits", ["AGE_NOT_INT", "AGE_NEGATIVE"]), "Access-Control-Max-Age": ("digits", ["CORS_MAX_AGE_INVALID", "CORS_MAX_AGE_NEGATIVE"]), "Content-Length": ("digits", ["CL_BAD_SYNTAX"]),
    "Access-Control-Allow-Origin": ("ACAO", ["BAD_SYNTAX", "BAD_SYNTAX_DETAILED"]), "Origin": ("origin", ["BAD_ORIGIN_SYNTAX", "ORIGIN_MULTIPLE_VALUES"]),
    "Content-Range": ("content-range", ["CONTENT_RANGE_MISSING_SLASH", "CONTENT_RANGE_MISSING_UNIT", "CONTENT_RANGE_INVALID_ASTERISK", "RANGE_INVALID_INTEGER", "RANGE_MISSING_HYPHEN"]),
    "Range": ("range", ["RANGE_BAD_SYNTAX"]),
}
OWN_LENIENT = {"Access-Control-Allow-Origin": "URI-reference", "Range": "range-lenient"}  # any reference, and white space before the ranges, pass


@lru_cache(None)
def grammar():
    return Grammar(CORE + RFC3986 + RFC5322 + RFC5646 + HTTP)
