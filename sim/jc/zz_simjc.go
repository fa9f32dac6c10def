package main

import (
	"os"
	"strconv"
	"strings"
	"syscall"
	_ "unsafe"
)

// The simulator runs the real jc with faults decided in advance: SIM_JC_PLAN
// is a list of key=value pairs, see below. Without it nothing is changed.

//go:linkname simReadHook internal/poll.simReadHook
var simReadHook func(fd int, p []byte) (int, error)

//go:linkname simWriteHook internal/poll.simWriteHook
var simWriteHook func(fd int, p []byte) (int, error)

//go:linkname simCloseFunc internal/poll.CloseFunc
var simCloseFunc func(int) error

func init() {
	plan := os.Getenv("SIM_JC_PLAN")
	if plan == "" {
		return
	}
	os.Unsetenv("SIM_JC_PLAN")
	num := map[string]int{"rfail": -1, "wfail": -1}
	var rchunk, wchunk []int
	report := ""
	for _, kv := range strings.Split(plan, ";") {
		k, v, _ := strings.Cut(kv, "=")
		switch k {
		case "report":
			report = v
		case "rchunk", "wchunk":
			var l []int
			for _, s := range strings.Split(v, ",") {
				n, _ := strconv.Atoi(s)
				l = append(l, n)
			}
			if k == "rchunk" {
				rchunk = l
			} else {
				wchunk = l
			}
		default:
			num[k], _ = strconv.Atoi(v)
		}
	}
	tell := func(s string) {
		fd, err := syscall.Open(report, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND, 0o644)
		if err == nil {
			syscall.Write(fd, []byte(s+"\n"))
			syscall.Close(fd)
		}
	}
	rpos, rcalls, reintr := 0, 0, 0
	simReadHook = func(fd int, p []byte) (int, error) {
		rcalls++
		if n := num["reintr"]; n > 0 && rcalls%n == 0 && reintr < 50 {
			reintr++
			if reintr == 1 {
				tell("eintr")
			}
			return -1, syscall.EINTR
		}
		if f := num["rfail"]; f >= 0 {
			if rpos >= f {
				tell("read")
				return -1, syscall.Errno(num["rerr"])
			}
			p = p[:min(len(p), f-rpos)]
		}
		if len(rchunk) > 0 {
			if c := rchunk[rcalls%len(rchunk)]; c > 0 && c < len(p) {
				p = p[:c]
			}
		}
		n, err := syscall.Read(fd, p)
		if n > 0 {
			rpos += n
		}
		return n, err
	}
	wpos, wcalls, weintr := 0, 0, 0
	dirty := map[int]bool{}
	simWriteHook = func(fd int, p []byte) (int, error) {
		if fd == 2 {
			return syscall.Write(fd, p)
		}
		wcalls++
		dirty[fd] = true
		if n := num["weintr"]; n > 0 && wcalls%n == 0 && weintr < 50 {
			weintr++
			if weintr == 1 {
				tell("eintr")
			}
			return -1, syscall.EINTR
		}
		if f := num["wfail"]; f >= 0 {
			if wpos >= f {
				tell("write")
				return -1, syscall.Errno(num["werr"])
			}
			p = p[:min(len(p), f-wpos)]
		}
		if len(wchunk) > 0 {
			if c := wchunk[wcalls%len(wchunk)]; c > 0 && c < len(p) {
				p = p[:c]
				tell("short")
			}
		}
		n, err := syscall.Write(fd, p)
		if n > 0 {
			wpos += n
		}
		return n, err
	}
	if e := num["cerr"]; e > 0 {
		simCloseFunc = func(fd int) error {
			err := syscall.Close(fd)
			if dirty[fd] {
				tell("close")
				return syscall.Errno(e)
			}
			return err
		}
	}
}
