package main

import "syscall"

func cpu() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec) + float64(u.Utime.Usec)/1e6
}
