"""The kinds of finding, and the topics of fields, as published."""

# (category, level): the kinds of finding that have them
BY = {
    ("CACHING", "BAD"): """
        AGE_NEGATIVE AGE_NOT_INT BAD_CDN_CC_TYPE CC_BAD_VALUE_TYPE CC_SHOULD_NOT_HAVE_VALUE CHECK_POST_ZERO DATE_CLOCKLESS_BAD_HDR STORE_PRIVATE_PUBLIC_CONFLICT
    """,
    ("CACHING", "GOOD"): """
        FRESHNESS_FRESH FRESHNESS_SHARED_PRIVATE
    """,
    ("CACHING", "INFO"): """
        CACHE_STATUS CACHE_STATUS_UNKNOWN_PARAM CC_AND_EXPIRES CDN_CACHE_CONTROL_PRESENT CHECK_POST_PRE CURRENT_AGE FRESHNESS_NONE FRESHNESS_NO_CACHE FRESHNESS_STALE_ALREADY FRESH_MUST_REVALIDATE
        FRESH_PROXY_REVALIDATE PROXY_STATUS PROXY_STATUS_UNKNOWN_PARAM STALE_IF_ERROR STALE_MUST_REVALIDATE STALE_PROXY_REVALIDATE STALE_SERVABLE STALE_WHILE_REVALIDATE STORE_METHOD_UNCACHEABLE
        STORE_NO_STORE STORE_PRIVATE_AUTH STORE_PRIVATE_CC STORE_PUBLIC_AUTH STORE_STORABLE STORE_STORABLE_SHARED_ONLY STORE_UNSTORABLE
    """,
    ("CACHING", "WARN"): """
        AGE_LARGE CACHE_STATUS_BAD_PARAM_VAL CC_CONFLICTING CC_DUP CC_MAX_AGE_TOO_LARGE CC_MISCAP CC_WRONG_MESSAGE CHECK_ALL_ZERO CHECK_POST_BIGGER CHECK_SINGLE FRESHNESS_HEURISTIC
        FRESHNESS_NO_CACHE_NO_VALIDATOR PROXY_STATUS_BAD_PARAM_VAL STORE_PUBLIC_UNNECESSARY VARY_ASTERISK VARY_COMPLEX VARY_DUPLICATE VARY_HOST VARY_USER_AGENT
    """,
    ("CONNECTION", "BAD"): """
        ALTSVC_CLEAR_LIST TRANSFER_CODING_UNWANTED
    """,
    ("CONNECTION", "INFO"): """
        TRANSFER_CODING_IDENTITY
    """,
    ("CONNECTION", "WARN"): """
        TRANSFER_CODING_PARAM
    """,
    ("CONNEG", "BAD"): """
        ACCEPT_BAD_SYNTAX ACCEPT_CH_BAD_TYPE ACCEPT_LANGUAGE_BAD_SYNTAX BAD_BROTLI BAD_GZIP BAD_ZLIB DECOMPRESSION_LIMIT
    """,
    ("CONNEG", "INFO"): """
        VARY_NEGOTIATE
    """,
    ("CONNEG", "WARN"): """
        ACCEPT_CH_IN_PLAIN_HTTP ACCEPT_CH_MISSING_VARY BAD_Q_VALUE DICTIONARY_COMPRESSED_MISSING_VARY ENCODING_UNWANTED
    """,
    ("COOKIES", "BAD"): """
        SET_COOKIE_NO_NAME SET_COOKIE_PREFIX_HOST_BAD_DOMAIN SET_COOKIE_PREFIX_HOST_BAD_PATH SET_COOKIE_PREFIX_SECURE_MISSING SET_COOKIE_TOO_LARGE
    """,
    ("COOKIES", "GOOD"): """
        SET_COOKIE_HARDENED
    """,
    ("COOKIES", "INFO"): """
        SET_COOKIE_VALUE_TOO_LARGE
    """,
    ("COOKIES", "WARN"): """
        SET_COOKIE_ATTRIBUTE_DUP SET_COOKIE_BAD_DATE SET_COOKIE_EMPTY_DOMAIN SET_COOKIE_EMPTY_MAX_AGE SET_COOKIE_LEADING_ZERO_MAX_AGE SET_COOKIE_LIFETIME_TOO_LONG SET_COOKIE_NAME_DUP
        SET_COOKIE_NON_DIGIT_MAX_AGE SET_COOKIE_NOT_SECURE SET_COOKIE_PARTITIONED_NO_SECURE SET_COOKIE_PRIORITY SET_COOKIE_UNKNOWN_ATTRIBUTE SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE SET_COOKIE_VERSION
    """,
    ("CORS", "BAD"): """
        ACAC_NOT_TRUE ACAO_MULTIPLE_VALUES BAD_ORIGIN_SYNTAX CORS_MAX_AGE_INVALID CORS_MAX_AGE_NEGATIVE CORS_PREFLIGHT_ONLY CORS_PREFLIGHT_REQ_METHOD_WRONG CORS_PREFLIGHT_REQ_NO_METHOD
        CORS_PREFLIGHT_REQ_NO_ORIGIN
    """,
    ("CORS", "INFO"): """
        CORS_ORIGIN_MATCH CORS_ORIGIN_MISMATCH CORS_ORIGIN_NULL CORS_ORIGIN_STAR CORS_PREFLIGHT_REQUEST CORS_PREFLIGHT_RESPONSE
    """,
    ("CORS", "WARN"): """
        ORIGIN_MULTIPLE_VALUES
    """,
    ("GENERAL", "BAD"): """
        ACCEPT_PATCH_BAD_SYNTAX ACCEPT_POST_BAD_SYNTAX ACCEPT_QUERY_BAD_SYNTAX ACCEPT_QUERY_BAD_TYPE BAD_DATE_SYNTAX BAD_JSON BAD_REPORTING_ENDPOINT_SYNTAX BAD_SYNTAX_DETAILED CHARSET_UNDECODABLE
        CL_AND_TE_PRESENT CL_BAD_SYNTAX CL_INCORRECT CONTENT_NOT_ALLOWED CREATED_WITHOUT_LOCATION DATE_INCORRECT DEPRECATION_BAD_TYPE FIELD_NAME_BAD_SYNTAX FIELD_NAME_ENCODING LM_FUTURE
        NEL_BAD_STRUCTURE PARAM_STAR_BAD PARAM_STAR_ERROR PARAM_STAR_QUOTED PARTIAL_NOT_REQUESTED PARTIAL_WITHOUT_RANGE REDIRECT_WITHOUT_LOCATION REPORT_TO_BAD_STRUCTURE REQUEST_CONTENT_NOT_DEFINED
        REQUEST_HDR_IN_RESPONSE RESPONSE_HDR_IN_REQUEST SINGLE_HEADER_REPEAT SPECULATION_RULES_BAD_TYPE STATUS_CODE_NON_NUMERIC STATUS_DEPRECATED STATUS_NONSTANDARD STATUS_PHRASE_ENCODING
        STATUS_RESERVED STATUS_URI_TOO_LONG STATUS_VERSION_NOT_SUPPORTED STRUCTURED_FIELD_PARSE_ERROR UNEXPECTED_CONTINUE UPGRADE_NOT_REQUESTED URI_BAD_SYNTAX
    """,
    ("GENERAL", "GOOD"): """
        CL_CORRECT DATE_CORRECT LINK_RESOURCE_HINTS NEL_CONFIGURED
    """,
    ("GENERAL", "INFO"): """
        CONTENT_LANGUAGE_DUP EXPECT_HTTP_1_0 LM_PRESENT LOCATION_NOT_ABSOLUTE SERVER_TIMING_MISSING_DESC SERVER_TIMING_MISSING_DUR SERVER_TOO_LONG STATUS_417_WITH_100_CONTINUE
        STATUS_ALREADY_REPORTED STATUS_BAD_GATEWAY STATUS_CONFLICT STATUS_EARLY_HINTS STATUS_EXPECTATION_FAILED STATUS_FORBIDDEN STATUS_GATEWAY_TIMEOUT STATUS_GONE STATUS_INTERNAL_SERVICE_ERROR
        STATUS_LOOP_DETECTED STATUS_METHOD_NOT_ALLOWED STATUS_MISDIRECTED_REQUEST STATUS_NETWORK_AUTHENTICATION_REQUIRED STATUS_NOT_ACCEPTABLE STATUS_NOT_FOUND STATUS_NOT_IMPLEMENTED
        STATUS_PRECONDITION_FAILED STATUS_PRECONDITION_REQUIRED STATUS_REQUEST_ENTITY_TOO_LARGE STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE STATUS_SERVICE_UNAVAILABLE STATUS_TOO_EARLY
        STATUS_TOO_MANY_REQUESTS STATUS_UNAVAILABLE_FOR_LEGAL_REASONS STATUS_UNSUPPORTED_MEDIA_TYPE STATUS_UPLOAD_RESUMPTION_SUPPORTED UNNECESSARY_HEADER VIA_PRESENT
    """,
    ("GENERAL", "WARN"): """
        AGE_PENALTY AVAILABLE_DICTIONARY_BAD_TYPE AVAILABLE_DICTIONARY_MISSING_AE BAD_SYNTAX CACHE_GROUPS_BAD_TYPE CACHE_GROUP_INVALIDATION_BAD_TYPE CACHE_GROUP_INVALIDATION_IGNORED
        CHARSET_IMPLICIT_MISMATCH CHARSET_MISMATCH CL_TOO_LARGE CONTENT_TYPE_MISMATCH CREATED_SAFE_METHOD DATE_CLOCKLESS DATE_OBSOLETE DEPRECATION_FUTURE DEPRECATION_PAST DEPRECATION_TRUE
        DISPOSITION_FILENAME_PATH_CHAR DISPOSITION_FILENAME_PERCENT DISPOSITION_OMITS_FILENAME DISPOSITION_UNKNOWN DUPLICATE_KEY EXPECT_UNKNOWN FIELD_DEPRECATED FIELD_SECTION_TOO_LARGE
        FIELD_TOO_LARGE FIELD_VALUE_ENCODING HEADER_SHOULD_NOT_BE_IN_304 LINK_BAD_ANCHOR LINK_BAD_HINT_TARGET LINK_BAD_TYPE LINK_REV LOCATION_UNDEFINED MAX_FORWARDS_IGNORED MEDIA_TYPE_BAD_NAME
        MEDIA_TYPE_LONG_NAME MISSING_USER_AGENT NEL_BAD_TYPE NEL_BAD_VALUE NEL_MISSING_KEY NEL_REPORT_TO_MISSING PARAM_REPEATS PARAM_SINGLE_QUOTED PARAM_STAR_CHARSET PARAM_STAR_NOCHARSET
        PRAGMA_OTHER REPORT_TO_BAD_TYPE REPORT_TO_MISSING_KEY SERVER_TIMING_BAD_PARAM STATUS_405_METHOD_IN_ALLOW STATUS_406_WITHOUT_NEGOTIATION STATUS_412_WITHOUT_PRECONDITION
        STATUS_416_WITHOUT_RANGE STATUS_417_WITHOUT_EXPECT STATUS_BAD_REQUEST STATUS_IM_A_TEAPOT SUNSET_PAST URI_TOO_LONG USE_AS_DICTIONARY_BAD_MATCH_DEST USE_AS_DICTIONARY_BAD_TYPE
    """,
    ("RANGE", "BAD"): """
        CONTENT_RANGE_INVALID_ASTERISK CONTENT_RANGE_MISSING_SLASH CONTENT_RANGE_MISSING_UNIT RANGE_BAD_SYNTAX RANGE_INVALID RANGE_INVALID_INTEGER RANGE_MISSING_HYPHEN
    """,
    ("RANGE", "INFO"): """
        CONTENT_RANGE_UNKNOWN_LENGTH
    """,
    ("RANGE", "WARN"): """
        CONTENT_RANGE_MEANINGLESS CONTENT_RANGE_UNSATISFIED_BAD_SC UNKNOWN_RANGE
    """,
    ("SECURITY", "BAD"): """
        CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE HSTS_BAD_MAX_AGE HSTS_INVALID HSTS_NO_MAX_AGE HSTS_PRELOAD_NOT_SUITABLE HSTS_VALUE_NOT_ALLOWED
        REFERER_SECURE_TO_INSECURE
    """,
    ("SECURITY", "GOOD"): """
        COEP_CREDENTIALLESS COEP_REQUIRE_CORP CONTENT_SECURITY_POLICY CONTENT_TYPE_OPTIONS COOP_SAME_ORIGIN COOP_SAME_ORIGIN_ALLOW_POPUPS CORP_SAME_ORIGIN CORP_SAME_SITE CSD_PRESENT
        FRAME_OPTIONS_DENY FRAME_OPTIONS_SAMEORIGIN HSTS_PRELOAD HSTS_VALID PERMISSIONS_POLICY_PRESENT REFERRER_POLICY_STRICT
    """,
    ("SECURITY", "INFO"): """
        CORP_CROSS_ORIGIN CSD_UNQUOTED HSTS_NO_PRELOAD HSTS_SUBDOMAINS HSTS_TRAILING_SEMICOLON REFERRER_POLICY_EMPTY
    """,
    ("SECURITY", "WARN"): """
        COEP_REPORT_ONLY_DUPLICATE COEP_REPORT_TO_MISSING COEP_UNSAFE_NONE CONTENT_TYPE_OPTIONS_UNKNOWN COOP_REPORT_ONLY_DUPLICATE COOP_REPORT_TO_MISSING COOP_UNSAFE_NONE
        CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE CSD_EMPTY CSD_UNKNOWN_VALUE CSP_DEPRECATED_REPORT_URI CSP_DUPLICATE_DIRECTIVE CSP_HTTP_URI CSP_REPORT_TO_MISSING CSP_UNSAFE_EVAL CSP_UNSAFE_INLINE
        CSP_WIDE_OPEN ENDPOINT_NOT_SECURE FRAME_OPTIONS_UNKNOWN HSTS_DUPLICATE_DIRECTIVE HSTS_MAX_AGE_ZERO HSTS_NO_SUBDOMAINS HSTS_OVER_HTTP HSTS_SHORT_MAX_AGE PERMISSIONS_POLICY_INVALID_ITEM_TYPE
        PERMISSIONS_POLICY_INVALID_VALUE PERMISSIONS_POLICY_QUOTED_KEYWORD PERMISSIONS_POLICY_UNKNOWN_TOKEN PERMISSIONS_POLICY_WILDCARD REFERER_SECURE_TO_DIFFERENT_ORIGIN REFERRER_POLICY_MULTIPLE
        REFERRER_POLICY_UNKNOWN REFERRER_POLICY_UNSAFE SPECULATION_RULE_NOT_SECURE
    """,
    ("VALIDATION", "WARN"): """
        NO_DATE_304
    """,
}
KINDS = {n: k for k, v in BY.items() for n in v.split()}

# topic: the fields that belong to it; GENERAL for any other
TOPICS = {
    "CACHING": """
        age cache-control cache-group-invalidation cache-groups cache-status cdn-cache-control etag expires last-modified pragma vary warning x-cache x-cache-lookup
    """,
    "CONNEG": """
        accept accept-ch accept-ch-lifetime accept-charset accept-encoding accept-language available-dictionary content-dpr content-encoding content-language dpr tcn use-as-dictionary viewport-width
        width
    """,
    "COOKIES": """
        cookie cookie2 set-cookie set-cookie2
    """,
    "CORS": """
        access-control-allow-credentials access-control-allow-headers access-control-allow-methods access-control-allow-origin access-control-expose-headers access-control-max-age
        access-control-request-headers access-control-request-method origin
    """,
    "RANGE": """
        accept-ranges range
    """,
    "SECURITY": """
        access-control authentication-info authorization content-security-policy content-security-policy-report-only cross-origin-embedder-policy cross-origin-embedder-policy-report-only
        cross-origin-opener-policy cross-origin-opener-policy-report-only cross-origin-resource-policy expect-ct feature-policy method-check method-check-expires permissions-policy public-key-pins
        public-key-pins-report-only referer-root referrer-policy security-scheme strict-transport-security x-content-security-policy x-content-type-options x-download-options x-frame-options
        x-meta-mssmarttagspreventparsing x-webkit-csp x-xss-protection
    """,
    "VALIDATION": """
        if-none-match if-range if-unmodified-since
    """,
}
TOPIC = {n: k for k, v in TOPICS.items() for n in v.split()}
