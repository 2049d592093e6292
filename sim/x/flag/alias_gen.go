// Code generated by genalias from flag. DO NOT EDIT.

package flag

import real "flag"

var BoolFunc = real.BoolFunc
var CommandLine = real.CommandLine

const ContinueOnError = real.ContinueOnError

var DurationVar = real.DurationVar
var ErrHelp = real.ErrHelp

type ErrorHandling = real.ErrorHandling

const ExitOnError = real.ExitOnError

type Flag = real.Flag
type FlagSet = real.FlagSet

var Float64Var = real.Float64Var
var Func = real.Func

type Getter = real.Getter

var Int64Var = real.Int64Var
var NFlag = real.NFlag
var NewFlagSet = real.NewFlagSet

const PanicOnError = real.PanicOnError

var PrintDefaults = real.PrintDefaults
var TextVar = real.TextVar
var Uint64 = real.Uint64
var Uint64Var = real.Uint64Var
var UintVar = real.UintVar
var UnquoteUsage = real.UnquoteUsage
var Usage = real.Usage

type Value = real.Value

var Var = real.Var
var Visit = real.Visit
var VisitAll = real.VisitAll
