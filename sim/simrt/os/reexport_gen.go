// Code generated by genshim. DO NOT EDIT.

package os

import std "os"

var Args = std.Args
var Chdir = std.Chdir
var Chmod = std.Chmod
var Chown = std.Chown
var Chtimes = std.Chtimes
var Clearenv = std.Clearenv
var CopyFS = std.CopyFS
var Create = std.Create
var CreateTemp = std.CreateTemp

const DevNull = std.DevNull

type DirEntry = std.DirEntry

var DirFS = std.DirFS
var Environ = std.Environ
var ErrClosed = std.ErrClosed
var ErrDeadlineExceeded = std.ErrDeadlineExceeded
var ErrExist = std.ErrExist
var ErrInvalid = std.ErrInvalid
var ErrNoDeadline = std.ErrNoDeadline
var ErrNoHandle = std.ErrNoHandle
var ErrNotExist = std.ErrNotExist
var ErrPermission = std.ErrPermission
var ErrProcessDone = std.ErrProcessDone
var Exit = std.Exit
var Expand = std.Expand
var ExpandEnv = std.ExpandEnv

type FileInfo = std.FileInfo
type FileMode = std.FileMode

var FindProcess = std.FindProcess
var Getegid = std.Getegid
var Getenv = std.Getenv
var Geteuid = std.Geteuid
var Getgid = std.Getgid
var Getgroups = std.Getgroups
var Getpagesize = std.Getpagesize
var Getpid = std.Getpid
var Getppid = std.Getppid
var Getuid = std.Getuid
var Getwd = std.Getwd
var Hostname = std.Hostname
var Interrupt = std.Interrupt
var IsExist = std.IsExist
var IsNotExist = std.IsNotExist
var IsPathSeparator = std.IsPathSeparator
var IsPermission = std.IsPermission
var IsTimeout = std.IsTimeout
var Kill = std.Kill
var Lchown = std.Lchown
var Link = std.Link

type LinkError = std.LinkError

var LookupEnv = std.LookupEnv
var Lstat = std.Lstat
var Mkdir = std.Mkdir
var MkdirAll = std.MkdirAll
var MkdirTemp = std.MkdirTemp

const ModeAppend = std.ModeAppend
const ModeCharDevice = std.ModeCharDevice
const ModeDevice = std.ModeDevice
const ModeDir = std.ModeDir
const ModeExclusive = std.ModeExclusive
const ModeIrregular = std.ModeIrregular
const ModeNamedPipe = std.ModeNamedPipe
const ModePerm = std.ModePerm
const ModeSetgid = std.ModeSetgid
const ModeSetuid = std.ModeSetuid
const ModeSocket = std.ModeSocket
const ModeSticky = std.ModeSticky
const ModeSymlink = std.ModeSymlink
const ModeTemporary = std.ModeTemporary
const ModeType = std.ModeType

var NewFile = std.NewFile
var NewSyscallError = std.NewSyscallError

const O_APPEND = std.O_APPEND
const O_CREATE = std.O_CREATE
const O_EXCL = std.O_EXCL
const O_RDONLY = std.O_RDONLY
const O_RDWR = std.O_RDWR
const O_SYNC = std.O_SYNC
const O_TRUNC = std.O_TRUNC
const O_WRONLY = std.O_WRONLY

var OpenInRoot = std.OpenInRoot
var OpenRoot = std.OpenRoot

type PathError = std.PathError

const PathListSeparator = std.PathListSeparator
const PathSeparator = std.PathSeparator

var Pipe = std.Pipe

type ProcAttr = std.ProcAttr
type Process = std.Process
type ProcessState = std.ProcessState

var Remove = std.Remove
var RemoveAll = std.RemoveAll
var Rename = std.Rename

type Root = std.Root

const SEEK_CUR = std.SEEK_CUR
const SEEK_END = std.SEEK_END
const SEEK_SET = std.SEEK_SET

var SameFile = std.SameFile
var Setenv = std.Setenv

type Signal = std.Signal

var StartProcess = std.StartProcess
var Stat = std.Stat
var Stderr = std.Stderr
var Stdin = std.Stdin
var Stdout = std.Stdout
var Symlink = std.Symlink

type SyscallError = std.SyscallError

var TempDir = std.TempDir
var Truncate = std.Truncate
var Unsetenv = std.Unsetenv
var UserCacheDir = std.UserCacheDir
var UserConfigDir = std.UserConfigDir
var UserHomeDir = std.UserHomeDir
var WriteFile = std.WriteFile
