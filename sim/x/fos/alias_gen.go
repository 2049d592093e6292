// Code generated by genalias from os. DO NOT EDIT.

package os

import real "os"

var Args = real.Args

const DevNull = real.DevNull

type DirEntry = real.DirEntry

var DirFS = real.DirFS
var Environ = real.Environ
var ErrClosed = real.ErrClosed
var ErrDeadlineExceeded = real.ErrDeadlineExceeded
var ErrExist = real.ErrExist
var ErrInvalid = real.ErrInvalid
var ErrNoDeadline = real.ErrNoDeadline
var ErrNoHandle = real.ErrNoHandle
var ErrNotExist = real.ErrNotExist
var ErrPermission = real.ErrPermission
var ErrProcessDone = real.ErrProcessDone
var Executable = real.Executable
var Expand = real.Expand
var ExpandEnv = real.ExpandEnv

type FileInfo = real.FileInfo
type FileMode = real.FileMode

var FindProcess = real.FindProcess
var Getegid = real.Getegid
var Getenv = real.Getenv
var Geteuid = real.Geteuid
var Getgid = real.Getgid
var Getgroups = real.Getgroups
var Getpagesize = real.Getpagesize
var Getppid = real.Getppid
var Getuid = real.Getuid
var Getwd = real.Getwd
var Hostname = real.Hostname
var Interrupt = real.Interrupt
var IsExist = real.IsExist
var IsNotExist = real.IsNotExist
var IsPathSeparator = real.IsPathSeparator
var IsPermission = real.IsPermission
var IsTimeout = real.IsTimeout
var Kill = real.Kill

type LinkError = real.LinkError

var LookupEnv = real.LookupEnv
var Lstat = real.Lstat

const ModeAppend = real.ModeAppend
const ModeCharDevice = real.ModeCharDevice
const ModeDevice = real.ModeDevice
const ModeDir = real.ModeDir
const ModeExclusive = real.ModeExclusive
const ModeIrregular = real.ModeIrregular
const ModeNamedPipe = real.ModeNamedPipe
const ModePerm = real.ModePerm
const ModeSetgid = real.ModeSetgid
const ModeSetuid = real.ModeSetuid
const ModeSocket = real.ModeSocket
const ModeSticky = real.ModeSticky
const ModeSymlink = real.ModeSymlink
const ModeTemporary = real.ModeTemporary
const ModeType = real.ModeType

var NewSyscallError = real.NewSyscallError

const O_APPEND = real.O_APPEND
const O_CREATE = real.O_CREATE
const O_EXCL = real.O_EXCL
const O_RDONLY = real.O_RDONLY
const O_RDWR = real.O_RDWR
const O_SYNC = real.O_SYNC
const O_TRUNC = real.O_TRUNC
const O_WRONLY = real.O_WRONLY

type PathError = real.PathError

const PathListSeparator = real.PathListSeparator
const PathSeparator = real.PathSeparator

type ProcAttr = real.ProcAttr
type Process = real.Process
type ProcessState = real.ProcessState

var ReadDir = real.ReadDir
var ReadFile = real.ReadFile
var Readlink = real.Readlink

const SEEK_CUR = real.SEEK_CUR
const SEEK_END = real.SEEK_END
const SEEK_SET = real.SEEK_SET

var SameFile = real.SameFile

type Signal = real.Signal

var Stat = real.Stat
var Stdin = real.Stdin
var Stdout = real.Stdout

type SyscallError = real.SyscallError

var TempDir = real.TempDir
var UserCacheDir = real.UserCacheDir
var UserConfigDir = real.UserConfigDir
var UserHomeDir = real.UserHomeDir
