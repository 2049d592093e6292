// Package mem stands in for gopsutil/mem: a machine with free memory (or what
// the run says).
package mem

import real "github.com/shirou/gopsutil/mem"

type VirtualMemoryStat = real.VirtualMemoryStat

// UsedPercent reported to the code under test.
var UsedPercent = 25.0

func VirtualMemory() (*VirtualMemoryStat, error) {
	return &VirtualMemoryStat{Total: 1 << 34, Free: 1 << 33, UsedPercent: UsedPercent}, nil
}
