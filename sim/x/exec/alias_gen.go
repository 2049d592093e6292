// Code generated by genalias from os/exec. DO NOT EDIT.

package exec

import real "os/exec"

var ErrDot = real.ErrDot
var ErrWaitDelay = real.ErrWaitDelay

type Error = real.Error
type ExitError = real.ExitError
