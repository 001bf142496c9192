#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

F = "httplint/field/parsers/"
prop("C01", "Linting any message completes and every note it produces renders",
 "Feeding any request or response (arbitrary bytes for the top line, field names and values, body chunks and trailers; any combination of constructor options; with or without a related message) to a linter never raises. Every note and subnote produced has a valid category and level, and its summary and detail both render to text without raising.",
 ["inputs", "histories"],
 "All byte strings for every input of the public API, including near-valid values of every one of the ~200 supported fields, huge numbers, deeply nested values and non-ASCII bytes.",
 "The tests feed a few hand-written values per field; a parser that raises on one odd value, or a note whose template names a variable its call site does not supply, is only found by reaching that value and rendering that note.",
 ["httplint/message.py", "httplint/field/section.py", "httplint/note.py", "httplint/cache.py", "httplint/status.py", "httplint/charset.py", F],
 [("ValueError is caught around parse(); everything else must be handled by each parser", "httplint/field/list_field.py, singleton_field.py, broken_field.py"),
  ("Note templates interpolated with the variables given at the call site", "httplint/note.py Note._get_summary/_get_detail")],
 ["HttpRequestLinter/HttpResponseLinter method calls", "Note.summary, Note.detail, Note.subnotes"])
prop("C02", "Locale changes only the wording of notes, and every locale renders cleanly",
 "Linting the same message under any supported locale yields the same notes in the same order with the same subjects, categories, levels and parsed results as under English. In every supported locale each note's summary and detail render without raising, contain no uninterpolated placeholder and no translation-catalogue metadata, and carry the same message-derived values as the English text; the locale in force is restored after the scope that set it.",
 ["inputs", "configurations"],
 "All messages x all shipped locales (en, es, fr, ja, zh), unknown or region-qualified locale names, nested and interleaved locale scopes.",
 "The tests check a handful of notes in a locale; whether a translated template still has the right placeholders depends on each of ~330 templates x 4 catalogues and on the message that triggers it.",
 ["httplint/i18n.py", "httplint/note.py", "httplint/util.py", "httplint/translations/"],
 [("context-variable locale and gettext lookup at render time", "httplint/i18n.py"), ("translated template % vars", "httplint/note.py")],
 ["Note.summary/detail under set_locale", "linter.notes"])
prop("C03", "Data from the message can never become markup in a note's detail",
 "For any message, the HTML in each note's detail contains exactly the elements and attributes its own wording calls for: text taken from the message (field names and values, URIs, methods, cookie names, parameters, decoder errors) appears only as escaped character data or inside library-chosen attribute values, never as a tag, attribute, entity-decoded script or link of its own.",
 ["inputs"],
 "All messages, in particular values carrying <, >, &, quotes, backticks, Markdown syntax, newlines (via percent-, JSON- or backslash-decoding) in every position a note can quote.",
 "The tests try one or two payloads on a few notes; escaping depends on how each of ~330 templates embeds each variable and on every path by which wire data reaches it.",
 ["httplint/note.py", "httplint/util.py", "httplint/field", "httplint/message.py", "tools/check_detail_escaping.py"],
 [("backtick stripping unless MarkdownSafe, and code spans/indented blocks in templates", "httplint/note.py Note._get_detail"), ("markdown_list", "httplint/util.py")],
 ["Note.detail"])
prop("C04", "How the body is chunked never changes the result",
 "For any message, delivering the body in one call, byte by byte, or split at any points (including empty chunks) gives the same notes, content length, content hash, decoded length, decoded hash and content sample. When the body is corrupt under its declared coding (one that merely ends early isn't), the splitting never changes which decoding problem is reported, the content length and hash, or the findings that don't concern the decoded content.",
 ["inputs", "histories"],
 "All bodies (identity, gzip with any header options, brotli, stacked codings, corrupt or truncated data) x all partitions into chunks.",
 "The tests feed bodies in one or two fixed chunkings; a state machine error at a particular split (inside a gzip header, at the sample limit) shows only there.",
 ["httplint/message.py", "httplint/content_encoding.py"],
 [("gzip header buffered until complete", "httplint/content_encoding.py GzipProcessor"), ("sample accumulated up to 8192 bytes", "httplint/message.py _content_sample_processor")],
 ["linter.notes, content_length, content_hash, content_sample, decoded.length, decoded.hash"])
prop("C05", "Content decoding agrees with the codings declared",
 "When Content-Encoding lists gzip, x-gzip and/or br (in the order applied) and the body really is the payload under those codings (one gzip member per gzip coding), the decoded length, decoded hash and content sample are those of the payload and no decoding problem is reported; with no or unknown codings the body passes through unchanged. A body that ends before its coding does decodes to everything that what was received stands for, and isn't reported. A body with a corrupt gzip header or corrupt compressed data is reported as such, with the reason, and decoding more than the size limit is reported and stops.",
 ["inputs"],
 "All payloads, all gzip header flag combinations (FTEXT, FHCRC, FEXTRA, FNAME, FCOMMENT), compression levels, brotli parameters, stacks of codings, and single-byte corruptions the reference decoder rejects.",
 "The tests use a few fixed bodies; header-field combinations, multi-megabyte expansion and coding order are not covered.",
 ["httplint/content_encoding.py", "httplint/message.py", F + "content_encoding.py"],
 [("pipeline of decoders built from the parsed Content-Encoding list", "httplint/content_encoding.py _build_pipeline")],
 ["linter.decoded.length/hash, linter.content_sample, BAD_GZIP/BAD_ZLIB/BAD_BROTLI/DECOMPRESSION_LIMIT notes"])
prop("C06", "Content-Length and unexpected-content verdicts match the bytes delivered",
 "For a message that may carry content and has a valid Content-Length, exactly one verdict is given: correct if the number of body bytes fed equals the field's value and incorrect otherwise, measured before content decoding. Content in a response to HEAD or a 304, or in a request whose method defines no meaning for content, is reported exactly when at least one byte was fed; a Content-Length that is not digits is never judged correct, and repeated Content-Length fields are reported.",
 ["inputs"],
 "All Content-Length values (leading zeros, signs, lists, repeats, non-digits), all body lengths, request and response, statuses, methods, with or without content coding.",
 "The tests check one right and one wrong length.",
 ["httplint/message.py", F + "content_length.py"],
 [("length compared when content is finished", "httplint/message.py finish_content")],
 ["CL_CORRECT/CL_INCORRECT/CONTENT_NOT_ALLOWED/REQUEST_CONTENT_NOT_DEFINED notes, headers.parsed['content-length']"])
prop("C07", "Field order across names, name case and padding don't change findings",
 "Permuting the header fields of a message without reordering lines of the same name, changing the letter case of field names, or adding spaces and tabs around field values gives the same set of notes (apart from the line positions they point at and the spelling of an unrecognised name) and the same parsed values.",
 ["inputs"],
 "All messages built from the supported fields x all permutations preserving same-name order x all recasings x all OWS paddings.",
 "The tests list headers in one order and one case; a check that reads another field before it is complete passes until the order changes.",
 ["httplint/field/section.py", "httplint/field", "httplint/field/finder.py", F],
 [("per-field evaluation after every line was read; cross-field checks at the end", "httplint/field/section.py, HttpField.post_check")],
 ["linter.notes, linter.headers.parsed"])
prop("C08", "A list field means the same on one line or spread over several",
 "For every field defined as a comma-separated list or a structured list or dictionary, sending its members on one comma-joined line or on several lines in the same order gives the same parsed value and the same notes (apart from line positions); empty list members are ignored and commas inside quoted strings, link targets, comments and challenge parameters do not split.",
 ["inputs"],
 "All list-based fields x member sequences (valid or not) x groupings into lines, with empty elements and quoted commas.",
 "The tests give one or two lines per field.",
 ["httplint/field/list_field.py", "httplint/field/structured_field.py", "httplint/field/json_field.py", "httplint/field/utils.py"],
 [("split_list_field", "httplint/field/utils.py"), ("lines joined before structured parsing", "httplint/field/structured_field.py")],
 ["linter.headers.parsed, linter.notes"])
prop("C09", "Singleton fields use the first line and report repetition",
 "For every field that allows a single value, a repeated field is reported exactly once whatever the values, the parsed value is that of the first line alone, and apart from that report the message is judged as if only the first line had been sent; a non-repeated field is never reported as repeated. A first line that cannot be parsed leaves the field without a value rather than falling back to a later line.",
 ["inputs"],
 "All singleton fields x first values (valid, invalid, empty) x any number and content of further lines x interleaving with other fields.",
 "The tests repeat only a few fields, with valid values.",
 ["httplint/field/singleton_field.py", F],
 [("first raw value parsed, SINGLE_HEADER_REPEAT otherwise", "httplint/field/singleton_field.py finish")],
 ["SINGLE_HEADER_REPEAT, linter.headers.parsed"])
prop("C10", "Field syntax findings agree with the field's published grammar",
 "For each field whose ABNF is published in the RFCs it cites, every value (for list fields, every member) derivable from the grammar (with any letter case where the grammar allows, and optional whitespace) is accepted without a syntax finding, and a value that is not derivable is reported as not conforming. Values that differ only in what recipients are told to tolerate (empty list elements, bad whitespace) are not in scope, nor are fields whose values are judged as dates or structured fields; numbers, byte ranges and origins are reported by findings of their own, for the same values.",
 ["inputs"],
 "All strings, for every field with an ABNF: tokens, quoted strings, qvalues, entity tags, media ranges, language ranges and tags, URIs and URI references, products and comments, hosts, protocol names, credentials and challenges, warn-values, keep-alive and others.",
 "The tests use one good and one or two bad values per field; the grammar's alternatives and boundary characters are an infinite set.",
 ["httplint/syntax/", "httplint/field/list_field.py", "httplint/field/singleton_field.py", F],
 [("verbose regular expressions transcribed from the ABNF, anchored around OWS", "httplint/syntax/*.py"), ("element match in the list/singleton base classes", "httplint/field/list_field.py, singleton_field.py")],
 ["BAD_SYNTAX, BAD_SYNTAX_DETAILED notes"])
prop("C11", "HTTP dates are understood exactly or reported as invalid",
 "In every date-valued field each of the three HTTP date formats (IMF-fixdate, RFC 850, asctime) is parsed to the exact instant it denotes in UTC, whatever the machine's time zone or locale; only the obsolete formats are reported as obsolete. A value that is not a valid HTTP date (bad day or month names, an out-of-range day or time of day, a missing or non-GMT zone, trailing text) is reported as an invalid date and yields no value. (Years before 1000, the century of two-digit years between 60 and 85, and whether the named weekday is the right one are not covered.)",
 ["inputs", "configurations"],
 "All instants from 1970 to 2200, the three formats, single-edit mutations, in Date, Expires, Last-Modified, If-Modified-Since, If-Unmodified-Since, Retry-After, Sunset and others.",
 "The tests parse a few fixed dates.",
 ["httplint/field/utils.py", F + "date.py", F + "expires.py", F + "last_modified.py", "httplint/syntax/rfc9110.py"],
 [("parse_http_date", "httplint/field/utils.py")],
 ["linter.headers.parsed, BAD_DATE_SYNTAX, DATE_OBSOLETE notes"])
prop("C12", "Structured Fields parse to what was serialised; failures stay contained",
 "For every structured field, any value serialised from an item, list or dictionary of the field's type parses back to that data, across any split into lines at member boundaries; a repeated dictionary or parameter key is reported and the last occurrence wins. A value that is not a valid structured field (missing base64 padding aside) is reported as such, yields no value, triggers no other check on that field, and does not affect the findings for other fields.",
 ["inputs"],
 "All structured values (integers, decimals, strings, tokens, byte sequences, booleans, dates, display strings, inner lists, parameters) x all structured fields, and byte mutations of them.",
 "The tests use one or two sample values per structured field.",
 ["httplint/field/structured_field.py", "httplint/syntax/rfc9651.py", F],
 [("lines combined and parsed with http_sf; errors turned into a note", "httplint/field/structured_field.py finish")],
 ["STRUCTURED_FIELD_PARSE_ERROR, DUPLICATE_KEY, linter.headers.parsed"])
prop("C13", "Cache storability verdicts follow RFC 9111",
 "For any response, whether private and shared caches may store it, and the one storability note given, follow from the request method, Vary: *, no-store, unqualified private, request Authorization with its overriding directives, explicit freshness and heuristically cacheable status codes, as RFC 9111 section 3 has it and whatever other directives or fields are present. The exposed storability results agree with the note shown.",
 ["inputs"],
 "The product of request methods, Authorization presence, status codes, Cache-Control directive sets (any order, case and line split), Expires, Vary, Date and related-request presence.",
 "The tests sample about ten combinations of several thousand.",
 ["httplint/cache.py", F + "cache_control.py", F + "vary.py"],
 [("ResponseCacheChecker.check_basic/check_storable", "httplint/cache.py")],
 ["linter.caching.store_private/store_shared, STORE_* notes"])
prop("C14", "Age, freshness and staleness verdicts follow RFC 9111",
 "For any storable response, the current age follows from Age, Date and the request and response times; the private and shared freshness lifetimes follow the precedence of s-maxage (shared only), max-age, then Expires minus Date when the response time is known (an invalid Expires meaning already expired); fresh, stale, heuristic, none and validate-first notes follow from comparing them; and what may be done once stale follows from the revalidation and stale-* directives. An unusable Age, Date or directive value counts as absent.",
 ["inputs", "configurations"],
 "All values of Age, Date, Expires, max-age, s-maxage and revalidation directives, and request/response times, including equalities at the fresh/stale boundary.",
 "The tests sample a few numeric points, never the boundaries or interactions.",
 ["httplint/cache.py", F + "age.py", F + "expires.py", F + "cache_control.py"],
 [("ResponseCacheChecker.check_age/check_freshness/check_stale", "httplint/cache.py")],
 ["linter.caching.age, freshness_lifetime_private/shared, CURRENT_AGE, FRESHNESS_*, STALE_* notes"])
prop("C15", "Cache-Control directives are parsed and cross-checked consistently",
 "Cache-Control is parsed into its directives in order with names lower-cased, delta-seconds as integers and quoted field lists unquoted; mis-capitalised names, values missing, of the wrong type (quoted delta-seconds included) or where none is allowed, oversized deltas, repeats, directives sent in the wrong kind of message, directives overridden by a stronger one and inconsistent pre-check/post-check pairs are each reported exactly when present. The findings do not depend on the order of the directives, except for which of repeated values applies.",
 ["inputs"],
 "All sequences of known and unknown directives with valid and invalid values in requests and responses.",
 "The tests check single directives, not combinations or orders.",
 ["httplint/field/parsers/cache_control.py", "httplint/syntax/rfc9111.py"],
 [("KNOWN_CC and CONFLICTING_CC tables", F + "cache_control.py")],
 ["linter.headers.parsed['cache-control'], CC_* and CHECK_* notes"])
prop("C16", "Status code findings depend on the status and the fields as specified",
 "For every status code 100-999, the status-specific findings are those prescribed for that code given the fields, method and request, and no others: unexpected or premature 100 and 101, 201 without Location, 206 without a Range request or (unless its parts carry it, as multipart/byteranges) Content-Range, redirects without Location, 304 without Date or with fields it should not carry, 405 for a method its Allow lists, 406, 412, 416 and 417 without the request fields they answer, deprecated, reserved and nonstandard codes, and so on. A status code that is not a number is reported as such.",
 ["inputs"],
 "All status codes x presence or absence of each relevant header x request presence, method, and request headers.",
 "The tests pick one message per known code.",
 ["httplint/status.py", "httplint/message.py"],
 [("StatusChecker dispatch on status code", "httplint/status.py")],
 ["STATUS_* and related notes"])
prop("C17", "Set-Cookie is parsed as RFC 6265 says user agents do",
 "For any Set-Cookie line the cookie name, value and attributes found are those of the user agent parsing algorithm (first '=' splits, a pair without '=' or with an empty name is a nameless cookie as in RFC 6265bis, surrounding whitespace removed, attribute names case-insensitive, unknown attributes ignored, cookie date algorithm for Expires, every attribute listed in order), each line is judged independently of the others, an empty pair yields no cookie, and the documented attribute problems (bad Domain, Path, Max-Age or Expires, unknown or repeated attributes, SameSite and prefix rules and so on) are each reported exactly when present.",
 ["inputs"],
 "All Set-Cookie values: attribute permutations, missing parts, odd spacing, cookie dates in any form, several lines per response.",
 "The tests take fixed RFC 6265 samples; date forms and attribute interactions are unbounded.",
 [F + "set_cookie.py", F + "cookie.py", "httplint/field/broken_field.py"],
 [("loose_parse and loose_date_parse", F + "set_cookie.py")],
 ["linter.headers.parsed['set-cookie'], SET_COOKIE_* notes"])
prop("C18", "CORS and preflight findings follow the Fetch protocol",
 "A request is recognised as a CORS preflight exactly when it is OPTIONS with Origin and Access-Control-Request-Method, a response as one to a preflight exactly when its request is; fields that only mean something in a preflight are reported elsewhere, and an incomplete preflight is reported for what it lacks. A response's Access-Control-Allow-Origin is compared with the request's Origin exactly ('*', null, match and mismatch each reported as such), several values, malformed origins, Access-Control-Max-Age and Access-Control-Allow-Credentials values are reported exactly when wrong, and methods, header names and tokens are parsed per the Fetch protocol.",
 ["inputs"],
 "All combinations of Origin, Access-Control-Request-* and Access-Control-Allow-* values over related request/response pairs.",
 "The tests sample a few pairs.",
 ["httplint/field/cors.py", F + "access_control_allow_origin.py", F + "access_control_allow_credentials.py", F + "access_control_max_age.py", F + "origin.py"],
 [("check_preflight_request/check_preflight_response", "httplint/field/cors.py")],
 ["CORS_* notes"])
prop("C19", "Misdirected, deprecated and unnecessary fields are reported and ignored",
 "A field defined only for requests that appears in a response (or the reverse) is reported once per line as such, yields no value (none, or an empty one) and triggers no other field-specific finding; in the right kind of message it never gets that report. Fields listed as deprecated are reported exactly when present, fields and members listed as unnecessary exactly when present with a value, in headers and trailers alike, whatever the case of their name, and a field name that is not a token is reported and otherwise ignored.",
 ["inputs"],
 "All ~200 known fields x request/response x headers/trailers x value x name case, and arbitrary field names.",
 "The tests exercise a sample of fields in the right direction only.",
 ["httplint/field/__init__.py", "httplint/field/finder.py", "httplint/field/deprecated.py", "httplint/field/unnecessary.py"],
 [("HttpField.pre_check", "httplint/field/__init__.py")],
 ["REQUEST_HDR_IN_RESPONSE, RESPONSE_HDR_IN_REQUEST, FIELD_DEPRECATED, UNNECESSARY_HEADER, FIELD_NAME_BAD_SYNTAX notes"])
prop("C20", "Fields are recorded faithfully and notes point at the right line and size",
 "The recorded header and trailer text has one entry per line received, in order, with names and values decoded without loss for ASCII and as ISO-8859-1 otherwise, and non-ASCII names or values are reported for exactly the lines that have them. A finding about one field line is attributed to that line's zero-based position, and oversized lines (over 8192 bytes) and sections (over 32768 bytes) are reported exactly when the limits are exceeded, whatever else is in the section.",
 ["inputs"],
 "All sequences of fields (valid, invalid, misdirected, repeated, oversized, non-ASCII) and positions of the offending line.",
 "The tests never put a line with findings after an ignored one, nor probe the size limits.",
 ["httplint/field/section.py"],
 [("offset counter and size accumulation", "httplint/field/section.py FieldSection.process")],
 ["headers.text, trailers.text, Note.subject, FIELD_TOO_LARGE, FIELD_SECTION_TOO_LARGE, FIELD_*_ENCODING notes"])
prop("C21", "Results are repeatable and independent of other linters, threads and seeds",
 "Linting the same message gives identical notes (class, subject, values, order and rendered text) and results every time: in a fresh process, after any other messages were linted, interleaved call by call with other linters, concurrently in several threads, and under any hash seed.",
 ["inputs", "histories", "schedules", "configurations"],
 "All pairs and interleavings of messages; hash seeds; thread interleavings as the scheduler gives them.",
 "The thread test runs one message; state leaking through a class attribute, default argument or cache shows only with particular pairs of messages.",
 ["httplint/message.py", "httplint/note.py", "httplint/i18n.py", "httplint/field"],
 [("per-instance state and per-thread Markdown renderer", "httplint/note.py")],
 ["linter.notes, headers.parsed"])
prop("C22", "A finished linter survives pickling",
 "Any linter, once finished, can be pickled and unpickled, and the copy has the same notes (including subnotes), rendered text, parsed fields, related message and results as the original.",
 ["inputs"],
 "All messages, so all note classes and all types of parsed field values, with and without a related message and content.",
 "The tests pickle a few messages; a value holding something unpicklable shows only for the field that makes it.",
 ["httplint/message.py", "httplint/content_encoding.py", "httplint/note.py", "httplint/field"],
 [("__getstate__ drops processors", "httplint/message.py, httplint/content_encoding.py")],
 ["pickle.loads(pickle.dumps(linter))"])
prop("C23", "The command line reports exactly what the library finds",
 "Piping a complete HTTP/1.x response or request through the command-line tool prints each note and subnote the library gives for that message once, under its category, with its level and localised summary and nothing else, and exits successfully; the body and trailers reach the linter byte for byte after chunked decoding.",
 ["inputs", "configurations"],
 "All well-formed messages with Content-Length, chunked or close-delimited bodies, binary or text, the -i, -n and -l options.",
 "There is no test of the command line beyond a smoke test.",
 ["httplint/cli/__init__.py", "httplint/cli/http_parser.py"],
 [("HttpCliParser feeding a linter from thor's parser", "httplint/cli/http_parser.py")],
 ["stdout and exit status of httplint.cli.main"])
prop("C24", "no_content mode drops exactly the content-based findings",
 "With no_content set, the findings are those of normal mode for the same message minus the findings that depend on the body's bytes (length verdicts, decoding errors, type and charset mismatches, unexpected content), and whatever body is fed has no effect on the findings.",
 ["inputs", "configurations"],
 "All messages x all bodies x no_content.",
 "The tests check one message.",
 ["httplint/message.py"],
 [("no_content guards", "httplint/message.py")],
 ["linter.notes"])
prop("C25", "Media types and parameters are parsed as RFC 9110 and RFC 8187 define",
 "In fields that carry parameters (Content-Type, Content-Disposition, Link, Accept, Server-Timing and similar), names are case-insensitive, quoted and unquoted forms of a value parse to the same result including quoted-pairs and quoted delimiters, repeats are reported with the last value kept, and extended (name*) values in UTF-8 decode to the original text; extended values with a part or charset missing, in another charset, quoted or not allowed there, single-quoted values, unregistrable media type names, bad or missing dispositions, filenames and durations are reported exactly when present.",
 ["inputs"],
 "All type, parameter and value combinations, quoting styles and percent-encodings.",
 "The tests sample a few parameters.",
 ["httplint/field/utils.py", F + "content_type.py", F + "content_disposition.py", F + "link.py", "httplint/syntax/rfc5987.py"],
 [("parse_params", "httplint/field/utils.py")],
 ["linter.headers.parsed, PARAM_* and DISPOSITION_* notes"])
prop("C26", "Charset and type verdicts follow from the declared type and the content",
 "A body that decodes under the charset declared for a text type (or UTF-8 for JSON) is never reported as undecodable, however long it is and wherever a sample boundary falls; a body whose inspected bytes cannot be decoded under it is. A decodable body is reported as mismatched only when it confidently looks like another charset that would give different text. Pure-ASCII content, non-text types, unknown charsets, bodiless or partial responses and empty content never get charset findings. A type mismatch is reported exactly when image, audio or video content carries the signature of another image type, or content declared as an image type with a known signature lacks one.",
 ["inputs"],
 "All texts x encodings x declared charsets (any codec name) x media types x statuses x lengths around the 8192-byte sample.",
 "The tests use short fixed bodies in a few encodings.",
 ["httplint/charset.py", "httplint/content_type.py", "httplint/message.py"],
 [("verify_charset and verify_content_type over the content sample", "httplint/charset.py, httplint/content_type.py")],
 ["CHARSET_*, CONTENT_TYPE_MISMATCH notes, linter.character_encoding"])
prop("C27", "Every known field name finds its own handler and description, no other does",
 "Looking up a field by name is case-insensitive and finds the handler whose canonical name (or documented alias) it is; every supported field has a non-empty description and findings name the field by its canonical name. A name that is not a known field gets no handler, no description and no field-specific findings.",
 ["inputs"],
 "All field names: known ones in every case, and arbitrary near-miss names (underscores, suffixes, module names).",
 "The tests look up known names in one case.",
 ["httplint/field/finder.py", "httplint/field/description.py", F],
 [("module lookup by name token, alias table", "httplint/field/finder.py")],
 ["get_field_description, linter.headers.parsed, Note.vars"])
prop("C28", "Findings that relate two fields depend on both, wherever they appear",
 "Checks that relate one field to another or to the request (reporting endpoints referenced by name from CSP, NEL, COEP and COOP against those defined; Accept-CH and dictionary-compressed content against Vary when the response can be stored; Available-Dictionary against Accept-Encoding; Content-Length with Transfer-Encoding; content and transfer codings against the request's Accept-Encoding and TE; enforcing with report-only policies; Cache-Group-Invalidation and Accept-CH against the request's method and scheme; Expires and Last-Modified without Date) report exactly when the relation fails for the whole message, wherever and in whatever order the fields appear, with names compared as each field defines.",
 ["inputs"],
 "All pairs of related fields, with references present, absent, misspelled or differently cased, in any order.",
 "The tests try one relation with one name each.",
 [F + "reporting_endpoints.py", F + "accept_ch.py", F + "use_as_dictionary.py", F + "available_dictionary.py", F + "content_security_policy.py", F + "nel.py", F + "content_length.py", F + "last_modified.py", F + "date.py"],
 [("post_check and evaluate reading other fields' parsed values", F)],
 ["linter.notes"])
prop("C29", "The request target is validated and normalised consistently",
 "For any request target and base URI (white space around it ignored), the URI recorded is the target without its fragment, with characters a URI cannot contain percent-encoded in userinfo, path, query and fragment and a non-ASCII host in IDNA form, and is otherwise unchanged; normalising it again changes nothing; a target whose scheme, authority or percent-encoding is malformed is reported once and not recorded as if it were good; targets of more than 8000 characters are reported exactly when they are longer; and asterisk, authority and relative forms never crash the linter.",
 ["inputs"],
 "All byte strings as targets: valid URIs over the RFC 3986 grammar, IRIs, malformed ones, lengths around the limit.",
 "The tests use a few targets.",
 ["httplint/message.py", "httplint/util.py", "httplint/syntax/rfc3986.py"],
 [("set_uri and iri_to_uri", "httplint/message.py, httplint/util.py")],
 ["request.uri, URI_BAD_SYNTAX, URI_TOO_LONG notes"])
prop("C30", "Range and Content-Range are parsed and checked per RFC 9110",
 "For any byte ranges, Range yields those ranges in order, and reports each range whose last position precedes its first, white space or other malformed members, and units that aren't tokens; Content-Range yields the unit, range and complete length sent, and is reported when it is malformed, when its range is inverted or reaches past the complete length, when a 206 has an unsatisfied range, and as meaningless in responses other than 206 and 416; Accept-Ranges lists its units, reporting those that are unknown; and nothing is reported for valid values (of up to 4000 digits).",
 ["inputs"],
 "All range specs and content ranges over arbitrary integers, units and spacing, with statuses and Content-Length.",
 "The tests use fixed small numbers.",
 [F + "range.py", F + "content_range.py", F + "accept_ranges.py", F + "if_range.py"],
 [("range parsers", F + "range.py, content_range.py")],
 ["linter.headers.parsed, RANGE_*/CONTENT_RANGE_* notes"])
prop("C31", "Browser security policies are interpreted as browsers do",
 "Strict-Transport-Security, Content-Security-Policy, Permissions-Policy, Referrer-Policy, X-Frame-Options, X-Content-Type-Options, Cross-Origin-*-Policy and Clear-Site-Data values are parsed into the directives their specifications define (case-insensitively where those say so, first or last occurrence winning as they say), and duplicate, unknown, conflicting, unsafe or invalid parts are each reported exactly when present.",
 ["inputs"],
 "All combinations of known and unknown directives and values, repeats, casings and separators, in one or several lines.",
 "The tests give a few fixed policies per field.",
 [F + "strict_transport_security.py", F + "content_security_policy.py", F + "permissions_policy.py", F + "referrer_policy.py", F + "x_frame_options.py", F + "x_content_type_options.py", F + "cross_origin_opener_policy.py", F + "cross_origin_embedder_policy.py", F + "cross_origin_resource_policy.py", F + "clear_site_data.py"],
 [("each field's parse and evaluate", F)],
 ["linter.headers.parsed, security notes"])
prop("C32", "JSON-valued fields parse to the JSON sent and report what is missing or wrong",
 "For NEL and Report-To, any list of JSON values on one or more lines parses to those values, text that is not JSON is reported once and yields no value, and each missing, mistyped or out-of-range member is reported exactly when it is.",
 ["inputs"],
 "All JSON values (any nesting, strings, numbers) and corruptions of them; all member/type combinations of the policies.",
 "The tests use a few fixed objects.",
 ["httplint/field/json_field.py", F + "nel.py", F + "report_to.py"],
 [("lines wrapped in a JSON array", "httplint/field/json_field.py")],
 ["BAD_JSON, NEL_*, REPORT_TO_* notes, headers.parsed"])
prop("C33", "Unrelated fields don't interfere",
 "Adding a field with an unrecognised name and any value (within the size limits) to a message's headers or trailers changes no finding and no result, apart from line positions and findings about that line itself. Trailers with any names are not merged into the headers (RFC 9110 section 6.5): adding them, to the message or to the one it's related to, removes no finding, changes no result about the headers, content, caching or status, and adds only findings about those trailers.",
 ["inputs"],
 "All messages x unknown field names and values x insertion points; all messages x trailers.",
 "The tests never compare a message with and without a field.",
 ["httplint/field/section.py", "httplint/field/finder.py", "httplint/message.py"],
 [("UnknownHttpField", "httplint/field/finder.py")],
 ["linter.notes, headers.parsed"])
prop("C34", "Content negotiation and framing fields are interpreted per RFC 9110/9112",
 "Accept, Accept-Language, Accept-Encoding, TE, Vary, Content-Language, Transfer-Encoding, Connection, Upgrade, Allow, Expect, entity tags, Referer, Location, Server, Max-Forwards, Content-Length and Keep-Alive are parsed into the members, parameters and numbers they carry (case-normalised where the field is case-insensitive), however they are spread over lines; and invalid media ranges and quality values (Accept, Accept-Language), repeated members (Vary, Content-Language), unknown expectations and expectations in HTTP/1.0, transfer coding parameters, referrers sent to another or insecure origin, locations that are relative or in a status that doesn't define them, and malformed, too long or too large values are each reported exactly when they occur.",
 ["inputs"],
 "All member lists, parameters, quality values and orders for these fields.",
 "The tests use a few lists each.",
 [F + "accept.py", F + "accept_language.py", F + "accept_encoding.py", F + "vary.py", F + "transfer_encoding.py", F + "content_language.py", F + "connection.py", F + "allow.py", F + "expect.py", F + "etag.py", F + "if_match.py", F + "if_none_match.py", F + "referer.py", F + "location.py", F + "max_forwards.py", F + "server.py", F + "content_length.py", F + "keep_alive.py"],
 [("each field's parse and evaluate", F)],
 ["linter.headers.parsed, notes"])
prop("C35", "Findings about time compare the instants the fields state",
 "For any dates (in any HTTP date format), Age and time of receipt, the clock is reported as correct, incorrect (and by how much, ahead or behind) or masked by an intermediary exactly as Date, Age and the time of receipt say; Last-Modified is reported as future or past relative to Date (or receipt); Sunset and Deprecation are reported as past or future, or mistyped, exactly when they are; and none of this is reported when the times it needs are unknown.",
 ["inputs", "timing"],
 "All dates, ages and receipt times, with their differences at and around each threshold, including the epoch.",
 "The tests use one or two dates per field and never the boundaries.",
 [F + "date.py", F + "last_modified.py", F + "sunset.py", F + "deprecation.py", "httplint/util.py"],
 [("date.post_check", F + "date.py"), ("last_modified.post_check", F + "last_modified.py")],
 ["notes, their summary and detail"])
prop("C36", "Members and parameters of Structured Fields have the types their fields define",
 "For Cache-Status, Proxy-Status, Use-As-Dictionary, CDN-Cache-Control, Cache-Groups, Cache-Group-Invalidation and Accept-Query, every member or parameter whose Structured Field type or value isn't the one the field defines for that name is reported, by name, and every parameter the field doesn't define is reported as unknown where the field says so; nothing else is.",
 ["inputs"],
 "All Structured Field values with these names and members of every type.",
 "The tests use one valid and one or two invalid values per field.",
 [F + "cache_status.py", F + "proxy_status.py", F + "use_as_dictionary.py", F + "cdn_cache_control.py", F + "cache_groups.py", F + "cache_group_invalidation.py", F + "accept_query.py", "httplint/field/utils.py"],
 [("check_sf_params", "httplint/field/utils.py"), ("each field's evaluate", F)],
 ["notes and their variables"])
prop("C37", "Link, Alt-Svc, Via, Age and the start line are interpreted as sent",
 "Link yields each target with its parameters, in order and however spread over lines; each link's deprecated rev, anchor that isn't a URI reference, type that isn't a media type, and resource hint (in any case, among other relations) to a target whose scheme browsers don't fetch (resolved against the base URI, if known) is reported, and the usable hints are reported together with all their targets; Alt-Svc and Via yield their members, with 'clear' reported when it isn't alone and every intermediary listed in order; Age yields its number, reporting those that are negative, not numbers, or above 2^31; and the start line's version, method, status and phrase are recorded as sent, with phrases that aren't ASCII reported.",
 ["inputs"],
 "All combinations of targets, parameters, relation types, base URIs and lines; arbitrary bytes in the start line.",
 "The tests use one link per finding, and fixed start lines.",
 [F + "link.py", F + "alt_svc.py", F + "via.py", F + "age.py", "httplint/message.py"],
 [("link.evaluate", F + "link.py"), ("process_response_topline", "httplint/message.py")],
 ["linter.headers.parsed, LINK_*, ALTSVC_*, VIA_PRESENT, AGE_* and STATUS_PHRASE_ENCODING notes"])
prop("C38", "Every finding says which part of the message it is about",
 "Every finding's subject is empty or names parts of the message it was made for: the message, its method, URI or status, the field section, a line (by its position), or fields (field-NAME, in lower case). A finding about a field names that field, which is in the message unless the finding says it is missing; findings about freshness name the fields it comes from; findings about several fields name just those; and subnotes keep the subject and variables of their note.",
 ["inputs"],
 "All messages, statuses and field combinations, with every finding they produce.",
 "The tests compare the classes of notes and never look at their subjects.",
 ["httplint/note.py", "httplint/message.py", "httplint/cache.py", "httplint/status.py", "httplint/charset.py", "httplint/content_type.py", "httplint/field/cors.py", "httplint/field/section.py"],
 [("Notes.add, Note.add_child", "httplint/note.py"), ("each caller of notes.add", "httplint")],
 ["linter.notes: subject, vars, subnotes"])
prop("C39", "Findings are filed and compared by kind and content",
 "Every finding has the category and level its kind is published with, except that findings any field can give (bad syntax, unparsable JSON or Structured Fields, deprecated or misdirected fields, bad dates) take the topic of the field they are about. Two findings are equal exactly when their kind, subject and details are: linting the same message again, or pickling the findings, gives equal findings in the same order, and findings that differ in any detail are unequal.",
 ["inputs"],
 "All messages, with every finding they produce, compared with the findings of a message that differs in one line.",
 "The tests compare the classes of notes, and never their categories, levels or equality.",
 ["httplint/note.py", "httplint/field/__init__.py", "httplint/field/list_field.py", "httplint/field/singleton_field.py", "httplint/field/broken_field.py", "httplint/field/structured_field.py", "httplint/field/json_field.py", "httplint/field/finder.py", "httplint/util.py", F],
 [("Note.__eq__, Notes.add's category", "httplint/note.py"), ("each field's category", F)],
 ["linter.notes: category, level, equality"])
prop("C40", "Linting takes moderate time, whatever is in the message",
 "The time linting takes, and the time rendering what was found takes, stay moderate for any message a user is likely to be sent: with 16,000 characters in one place (a field value, a target, a phrase, a name), 1,000 lines or list members, or 128 KB of content in chunks of any size, compressed or not, both finish within a few seconds of CPU time, whatever is repeated in it; and with 30,000 lines, members, parameters, trailers or chunks (8 MB) instead, the time stays in proportion to how many there are, or is short. In particular no value makes the checking of syntax take exponential or cubic time, and no body makes the time depend on the square of its size.",
 ["inputs"],
 "All values made by repeating parts of near-valid values in one to three places, in every field and every other input, and many lines, members and chunks.",
 "The tests use short values; the time of a pattern that backtracks, or a loop that starts over, is only seen with long values of one particular shape.",
 ["httplint/syntax", "httplint/field/utils.py", "httplint/field/list_field.py", "httplint/field/singleton_field.py", "httplint/field/section.py", "httplint/content_encoding.py", "httplint/message.py", F],
 [("syntax patterns are matched with backtracking", "httplint/syntax, httplint/field/list_field.py"), ("a gzip header is read again with each chunk until it is complete", "httplint/content_encoding.py")],
 ["HttpRequestLinter/HttpResponseLinter method calls", "Note.summary, Note.detail"])
prop("C41", "What a finding quotes is what the message says",
 "When a finding names something in the message or gives its value - a directive and its argument, a parameter, a key and its member, a metric, a cookie, a link relation, a policy, a coding, a date as it reads and how far from another, a length, a position in a badly formed value, a range, a status code and its phrase, a method - what it gives is what the message has there, as the message has it: the one at fault and not its neighbour, complete, in the given order, and with counts, ages and differences that are those of the message. Each thing at fault has its own finding, in the order they are in the message, and things that aren't at fault have none.",
 ["inputs"],
 "All messages with any number of faults of each of some ninety kinds among members that aren't at fault.",
 "The tests compare the classes of the notes and not what is in them; a finding that quotes the wrong member looks the same to them.",
 ["httplint/field/parsers", "httplint/field/structured_field.py", "httplint/field/json_field.py", "httplint/cache.py", "httplint/status.py", "httplint/charset.py", "httplint/message.py", F],
 [("details are keyword arguments given where a finding is made", "httplint/note.py, add_note callers"), ("where a Structured Field goes wrong is shown with some of what is around it", "httplint/field/structured_field.py")],
 ["HttpRequestLinter/HttpResponseLinter method calls", "Note.vars, Note.subnotes"])
prop("C42", "Linting takes moderate memory, whatever the content expands to",
 "However much the content of a message expands to when its content codings are removed (a few kilobytes can stand for a gigabyte, also in layers, in one chunk or in many), and whatever is repeated in its fields, start line and content, linting it and rendering what was found never take more memory than some megabytes and a small multiple of the message's own size; and when the linter has gone, nothing of it is kept: not the linter, its handlers or its findings, and nothing of the size of the message.",
 ["inputs", "histories"],
 "All contents in all (stacks of) content codings and all delivery in chunks; all long or repetitive messages; all sequences of messages linted one after the other.",
 "The tests decompress small bodies and run in a process that ends; what a bomb takes, and what is left behind, can't be seen in the findings.",
 ["httplint/content_encoding.py", "httplint/message.py", "httplint/note.py", "httplint/cache.py", F],
 [("decoders are asked for output a limited amount at a time, and stop at 100 MB", "httplint/content_encoding.py:MAX_DECOMPRESSED_BYTES"), ("content is passed on in chunks and not kept but for a sample", "httplint/message.py:HttpMessageLinter.feed_content"), ("linters, handlers and processors refer to each other", "httplint/content_encoding.py, httplint/cache.py")],
 ["HttpRequestLinter/HttpResponseLinter method calls", "tracemalloc, weakref"])
prop("C43", "The translation tools find every message and lose no translation",
 "Extraction (make i18n-extract) finds every message the library looks up when it renders - the summaries and texts of all findings and the descriptions of all fields, however deep the class is below Note or HttpField, and whatever is in L_, translate and ngettext - with its line, and nothing else. The check of translations (make i18n-check) reports for each message, also one with plurals, whether it is fuzzy, has no translation, lacks or adds a variable, or has a stray percent sign, and nothing else; it fails exactly when a translation can't be used. Automatic translation asks for just the messages (without plurals) whose translation is missing or fuzzy, one after the other at the given rate, saves what it got, also when it is stopped or gives up after three failures in a row, and changes nothing else. Saving a catalogue that was loaded loses nothing.",
 ["inputs", "fault_sequences"],
 "All source files with classes, calls and text that looks like them; all catalogues in any language with messages broken in any way; all sequences of replies, failures and interruptions.",
 "No test runs the tools; they are run by hand, on the catalogues there happen to be.",
 ["tools/i18n/extractors.py", "tools/i18n/check.py", "tools/i18n/autotranslate.py", "tools/i18n/utils.py", "httplint/i18n.py"],
 [("extract_notes adds what Babel's own extractor doesn't find", "tools/i18n/extractors.py"), ("catalogues are saved when translating is interrupted", "tools/i18n/autotranslate.py")],
 ["pybabel extract", "tools.i18n.check.main, tools.i18n.autotranslate.main"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
