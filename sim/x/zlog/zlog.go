// Package zlog stands in for go-vgo/zlog: no log files.
package zlog

func Error(v ...interface{})            {}
func Info(v ...interface{})             {}
func Warn(v ...interface{})             {}
func Debug(v ...interface{})            {}
func Errorf(f string, v ...interface{}) {}
func Infof(f string, v ...interface{})  {}
