// Code generated by genalias from net. DO NOT EDIT.

package net

import real "net"

type Addr = real.Addr
type AddrError = real.AddrError
type Buffers = real.Buffers

var CIDRMask = real.CIDRMask

type Conn = real.Conn
type DNSConfigError = real.DNSConfigError
type DNSError = real.DNSError

var DefaultResolver = real.DefaultResolver
var DialIP = real.DialIP
var DialTCP = real.DialTCP
var DialTimeout = real.DialTimeout
var DialUDP = real.DialUDP
var DialUnix = real.DialUnix

type Dialer = real.Dialer

var ErrClosed = real.ErrClosed
var ErrWriteToConnected = real.ErrWriteToConnected

type Error = real.Error

var FileConn = real.FileConn
var FileListener = real.FileListener
var FilePacketConn = real.FilePacketConn

const FlagBroadcast = real.FlagBroadcast
const FlagLoopback = real.FlagLoopback
const FlagMulticast = real.FlagMulticast
const FlagPointToPoint = real.FlagPointToPoint
const FlagRunning = real.FlagRunning
const FlagUp = real.FlagUp

type Flags = real.Flags
type HardwareAddr = real.HardwareAddr
type IP = real.IP
type IPAddr = real.IPAddr
type IPConn = real.IPConn
type IPMask = real.IPMask
type IPNet = real.IPNet

var IPv4 = real.IPv4
var IPv4Mask = real.IPv4Mask
var IPv4allrouter = real.IPv4allrouter
var IPv4allsys = real.IPv4allsys
var IPv4bcast = real.IPv4bcast

const IPv4len = real.IPv4len

var IPv4zero = real.IPv4zero
var IPv6interfacelocalallnodes = real.IPv6interfacelocalallnodes

const IPv6len = real.IPv6len

var IPv6linklocalallnodes = real.IPv6linklocalallnodes
var IPv6linklocalallrouters = real.IPv6linklocalallrouters
var IPv6loopback = real.IPv6loopback
var IPv6unspecified = real.IPv6unspecified
var IPv6zero = real.IPv6zero

type Interface = real.Interface

var InterfaceAddrs = real.InterfaceAddrs
var InterfaceByIndex = real.InterfaceByIndex
var InterfaceByName = real.InterfaceByName
var Interfaces = real.Interfaces

type InvalidAddrError = real.InvalidAddrError

var JoinHostPort = real.JoinHostPort

type KeepAliveConfig = real.KeepAliveConfig

var ListenIP = real.ListenIP
var ListenMulticastUDP = real.ListenMulticastUDP
var ListenPacket = real.ListenPacket
var ListenTCP = real.ListenTCP
var ListenUDP = real.ListenUDP
var ListenUnix = real.ListenUnix
var ListenUnixgram = real.ListenUnixgram

type Listener = real.Listener

var LookupAddr = real.LookupAddr
var LookupCNAME = real.LookupCNAME
var LookupHost = real.LookupHost
var LookupIP = real.LookupIP
var LookupMX = real.LookupMX
var LookupNS = real.LookupNS
var LookupPort = real.LookupPort
var LookupSRV = real.LookupSRV
var LookupTXT = real.LookupTXT

type MX = real.MX
type NS = real.NS
type OpError = real.OpError
type PacketConn = real.PacketConn

var ParseCIDR = real.ParseCIDR

type ParseError = real.ParseError

var ParseIP = real.ParseIP
var ParseMAC = real.ParseMAC
var Pipe = real.Pipe
var ResolveIPAddr = real.ResolveIPAddr
var ResolveTCPAddr = real.ResolveTCPAddr
var ResolveUDPAddr = real.ResolveUDPAddr
var ResolveUnixAddr = real.ResolveUnixAddr

type Resolver = real.Resolver
type SRV = real.SRV

var SplitHostPort = real.SplitHostPort

type TCPAddr = real.TCPAddr

var TCPAddrFromAddrPort = real.TCPAddrFromAddrPort

type TCPConn = real.TCPConn
type TCPListener = real.TCPListener
type UDPAddr = real.UDPAddr

var UDPAddrFromAddrPort = real.UDPAddrFromAddrPort

type UDPConn = real.UDPConn
type UnixAddr = real.UnixAddr
type UnixConn = real.UnixConn
type UnixListener = real.UnixListener
type UnknownNetworkError = real.UnknownNetworkError
