------------------------------- MODULE Status -------------------------------
(* The names of response variants and the HTTP statuses they stand for.       *)
EXTENDS Naturals
CodeOf ==
  [ Continue |-> 100,
    SwitchingProtocols |-> 101,
    Processing |-> 102,
    Ok |-> 200,
    Created |-> 201,
    Accepted |-> 202,
    NonAuthoritativeInformation |-> 203,
    NoContent |-> 204,
    ResetContent |-> 205,
    PartialContent |-> 206,
    MultiStatus |-> 207,
    AlreadyReported |-> 208,
    ImUsed |-> 226,
    MultipleChoices |-> 300,
    MovedPermanently |-> 301,
    Found |-> 302,
    SeeOther |-> 303,
    NotModified |-> 304,
    UseProxy |-> 305,
    TemporaryRedirect |-> 307,
    PermanentRedirect |-> 308,
    BadRequest |-> 400,
    Unauthorized |-> 401,
    PaymentRequired |-> 402,
    Forbidden |-> 403,
    NotFound |-> 404,
    MethodNotAllowed |-> 405,
    NotAcceptable |-> 406,
    ProxyAuthenticationRequired |-> 407,
    RequestTimeout |-> 408,
    Conflict |-> 409,
    Gone |-> 410,
    LengthRequired |-> 411,
    PreconditionFailed |-> 412,
    PayloadTooLarge |-> 413,
    UriTooLong |-> 414,
    UnsupportedMediaType |-> 415,
    RangeNotSatisfiable |-> 416,
    ExceptionFailed |-> 417,
    ImATeapot |-> 418,
    MisdirectedRequest |-> 421,
    UnprocessableEntity |-> 422,
    Locked |-> 423,
    FailedDependency |-> 424,
    UpgradeRequired |-> 426,
    UnavailableForLegalReasons |-> 451,
    InternalServerError |-> 500,
    NotImplemented |-> 501,
    BadGateway |-> 502,
    ServiceUnavailable |-> 503,
    GatewayTimeout |-> 504,
    HttpVersionNotSupported |-> 505,
    VariantAlsoNegotiates |-> 506,
    InsufficientStorage |-> 507,
    LoopDetected |-> 508,
    BandwidthLimitExceeded |-> 509,
    NotExtended |-> 510 ]
VariantNames == DOMAIN CodeOf
Codes == {CodeOf[n] : n \in VariantNames}
=============================================================================
