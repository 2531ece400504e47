// Code generated by genshim. DO NOT EDIT.

package debug

import std "runtime/debug"

type BuildInfo = std.BuildInfo
type BuildSetting = std.BuildSetting
type CrashOptions = std.CrashOptions
type GCStats = std.GCStats
type Module = std.Module

var ParseBuildInfo = std.ParseBuildInfo
var PrintStack = std.PrintStack
var ReadBuildInfo = std.ReadBuildInfo
var SetCrashOutput = std.SetCrashOutput
var SetGCPercent = std.SetGCPercent
var SetMaxStack = std.SetMaxStack
var SetMaxThreads = std.SetMaxThreads
var SetMemoryLimit = std.SetMemoryLimit
var SetPanicOnFault = std.SetPanicOnFault
var SetTraceback = std.SetTraceback
var Stack = std.Stack
var WriteHeapDump = std.WriteHeapDump
