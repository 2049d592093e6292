// Code generated by genalias from net/http. DO NOT EDIT.

package http

import real "net/http"

var AllowQuerySemicolons = real.AllowQuerySemicolons
var CanonicalHeaderKey = real.CanonicalHeaderKey

type ClientConn = real.ClientConn
type CloseNotifier = real.CloseNotifier
type ConnState = real.ConnState
type Cookie = real.Cookie
type CookieJar = real.CookieJar
type CrossOriginProtection = real.CrossOriginProtection

const DefaultMaxHeaderBytes = real.DefaultMaxHeaderBytes
const DefaultMaxHeaderValueCount = real.DefaultMaxHeaderValueCount
const DefaultMaxIdleConnsPerHost = real.DefaultMaxIdleConnsPerHost

var DefaultServeMux = real.DefaultServeMux
var DefaultTransport = real.DefaultTransport
var DetectContentType = real.DetectContentType

type Dir = real.Dir

var ErrAbortHandler = real.ErrAbortHandler
var ErrBodyNotAllowed = real.ErrBodyNotAllowed
var ErrBodyReadAfterClose = real.ErrBodyReadAfterClose
var ErrContentLength = real.ErrContentLength
var ErrHandlerTimeout = real.ErrHandlerTimeout
var ErrHeaderTooLong = real.ErrHeaderTooLong
var ErrHijacked = real.ErrHijacked
var ErrLineTooLong = real.ErrLineTooLong
var ErrMissingBoundary = real.ErrMissingBoundary
var ErrMissingContentLength = real.ErrMissingContentLength
var ErrMissingFile = real.ErrMissingFile
var ErrNoCookie = real.ErrNoCookie
var ErrNoLocation = real.ErrNoLocation
var ErrNotMultipart = real.ErrNotMultipart
var ErrNotSupported = real.ErrNotSupported
var ErrSchemeMismatch = real.ErrSchemeMismatch
var ErrServerClosed = real.ErrServerClosed
var ErrShortBody = real.ErrShortBody
var ErrSkipAltProtocol = real.ErrSkipAltProtocol
var ErrUnexpectedTrailer = real.ErrUnexpectedTrailer
var ErrUseLastResponse = real.ErrUseLastResponse
var ErrWriteAfterFlush = real.ErrWriteAfterFlush
var Error = real.Error
var FS = real.FS

type File = real.File

var FileServer = real.FileServer
var FileServerFS = real.FileServerFS

type FileSystem = real.FileSystem
type Flusher = real.Flusher
type HTTP2Config = real.HTTP2Config

var Handle = real.Handle
var HandleFunc = real.HandleFunc

type Handler = real.Handler
type HandlerFunc = real.HandlerFunc
type Header = real.Header
type Hijacker = real.Hijacker

var ListenAndServe = real.ListenAndServe
var ListenAndServeTLS = real.ListenAndServeTLS
var LocalAddrContextKey = real.LocalAddrContextKey

type MaxBytesError = real.MaxBytesError

var MaxBytesHandler = real.MaxBytesHandler
var MaxBytesReader = real.MaxBytesReader

const MethodConnect = real.MethodConnect
const MethodDelete = real.MethodDelete
const MethodGet = real.MethodGet
const MethodHead = real.MethodHead
const MethodOptions = real.MethodOptions
const MethodPatch = real.MethodPatch
const MethodPost = real.MethodPost
const MethodPut = real.MethodPut
const MethodTrace = real.MethodTrace

var NewCrossOriginProtection = real.NewCrossOriginProtection
var NewFileTransport = real.NewFileTransport
var NewFileTransportFS = real.NewFileTransportFS
var NewRequest = real.NewRequest
var NewRequestWithContext = real.NewRequestWithContext
var NewResponseController = real.NewResponseController
var NewServeMux = real.NewServeMux
var NoBody = real.NoBody
var NotFound = real.NotFound
var NotFoundHandler = real.NotFoundHandler
var ParseCookie = real.ParseCookie
var ParseHTTPVersion = real.ParseHTTPVersion
var ParseSetCookie = real.ParseSetCookie
var ParseTime = real.ParseTime

type ProtocolError = real.ProtocolError
type Protocols = real.Protocols

var ProxyFromEnvironment = real.ProxyFromEnvironment
var ProxyURL = real.ProxyURL

type PushOptions = real.PushOptions
type Pusher = real.Pusher

var ReadRequest = real.ReadRequest
var ReadResponse = real.ReadResponse
var Redirect = real.Redirect
var RedirectHandler = real.RedirectHandler

type Request = real.Request
type Response = real.Response
type ResponseController = real.ResponseController
type ResponseWriter = real.ResponseWriter
type RoundTripper = real.RoundTripper
type SameSite = real.SameSite

const SameSiteDefaultMode = real.SameSiteDefaultMode
const SameSiteLaxMode = real.SameSiteLaxMode
const SameSiteNoneMode = real.SameSiteNoneMode
const SameSiteStrictMode = real.SameSiteStrictMode

var Serve = real.Serve
var ServeContent = real.ServeContent
var ServeFile = real.ServeFile
var ServeFileFS = real.ServeFileFS

type ServeMux = real.ServeMux

var ServeTLS = real.ServeTLS

type Server = real.Server

var ServerContextKey = real.ServerContextKey
var SetCookie = real.SetCookie

const StateActive = real.StateActive
const StateClosed = real.StateClosed
const StateHijacked = real.StateHijacked
const StateIdle = real.StateIdle
const StateNew = real.StateNew
const StatusAccepted = real.StatusAccepted
const StatusAlreadyReported = real.StatusAlreadyReported
const StatusBadGateway = real.StatusBadGateway
const StatusBadRequest = real.StatusBadRequest
const StatusConflict = real.StatusConflict
const StatusContinue = real.StatusContinue
const StatusCreated = real.StatusCreated
const StatusEarlyHints = real.StatusEarlyHints
const StatusExpectationFailed = real.StatusExpectationFailed
const StatusFailedDependency = real.StatusFailedDependency
const StatusForbidden = real.StatusForbidden
const StatusFound = real.StatusFound
const StatusGatewayTimeout = real.StatusGatewayTimeout
const StatusGone = real.StatusGone
const StatusHTTPVersionNotSupported = real.StatusHTTPVersionNotSupported
const StatusIMUsed = real.StatusIMUsed
const StatusInsufficientStorage = real.StatusInsufficientStorage
const StatusInternalServerError = real.StatusInternalServerError
const StatusLengthRequired = real.StatusLengthRequired
const StatusLocked = real.StatusLocked
const StatusLoopDetected = real.StatusLoopDetected
const StatusMethodNotAllowed = real.StatusMethodNotAllowed
const StatusMisdirectedRequest = real.StatusMisdirectedRequest
const StatusMovedPermanently = real.StatusMovedPermanently
const StatusMultiStatus = real.StatusMultiStatus
const StatusMultipleChoices = real.StatusMultipleChoices
const StatusNetworkAuthenticationRequired = real.StatusNetworkAuthenticationRequired
const StatusNoContent = real.StatusNoContent
const StatusNonAuthoritativeInfo = real.StatusNonAuthoritativeInfo
const StatusNotAcceptable = real.StatusNotAcceptable
const StatusNotExtended = real.StatusNotExtended
const StatusNotFound = real.StatusNotFound
const StatusNotImplemented = real.StatusNotImplemented
const StatusNotModified = real.StatusNotModified
const StatusOK = real.StatusOK
const StatusPartialContent = real.StatusPartialContent
const StatusPaymentRequired = real.StatusPaymentRequired
const StatusPermanentRedirect = real.StatusPermanentRedirect
const StatusPreconditionFailed = real.StatusPreconditionFailed
const StatusPreconditionRequired = real.StatusPreconditionRequired
const StatusProcessing = real.StatusProcessing
const StatusProxyAuthRequired = real.StatusProxyAuthRequired
const StatusRequestEntityTooLarge = real.StatusRequestEntityTooLarge
const StatusRequestHeaderFieldsTooLarge = real.StatusRequestHeaderFieldsTooLarge
const StatusRequestTimeout = real.StatusRequestTimeout
const StatusRequestURITooLong = real.StatusRequestURITooLong
const StatusRequestedRangeNotSatisfiable = real.StatusRequestedRangeNotSatisfiable
const StatusResetContent = real.StatusResetContent
const StatusSeeOther = real.StatusSeeOther
const StatusServiceUnavailable = real.StatusServiceUnavailable
const StatusSwitchingProtocols = real.StatusSwitchingProtocols
const StatusTeapot = real.StatusTeapot
const StatusTemporaryRedirect = real.StatusTemporaryRedirect

var StatusText = real.StatusText

const StatusTooEarly = real.StatusTooEarly
const StatusTooManyRequests = real.StatusTooManyRequests
const StatusUnauthorized = real.StatusUnauthorized
const StatusUnavailableForLegalReasons = real.StatusUnavailableForLegalReasons
const StatusUnprocessableEntity = real.StatusUnprocessableEntity
const StatusUnsupportedMediaType = real.StatusUnsupportedMediaType
const StatusUpgradeRequired = real.StatusUpgradeRequired
const StatusUseProxy = real.StatusUseProxy
const StatusVariantAlsoNegotiates = real.StatusVariantAlsoNegotiates

var StripPrefix = real.StripPrefix

const TimeFormat = real.TimeFormat

var TimeoutHandler = real.TimeoutHandler

const TrailerPrefix = real.TrailerPrefix

type Transport = real.Transport
