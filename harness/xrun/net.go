package xrun

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sync/atomic"
	"syscall"
	"time"
)

var turn uint32

// Fatal ends the driver: the machinery has failed, not the code under test.
func Fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(3)
}

// Short tells whether err says that the machine has run out of something.
func Short(err error) bool {
	for _, e := range []error{syscall.EADDRINUSE, syscall.EADDRNOTAVAIL, syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ENOMEM} {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

// Listen opens a listener on the loopback, each time on another address of
// it, so that ports on which connections linger do not run out.
func Listen() net.Listener {
	k := atomic.AddUint32(&turn, 1) + uint32(os.Getpid())*7919
	host := fmt.Sprintf("127.%d.%d.%d", 10+k>>14%200, k>>7%127+1, k%127+1)
	for n := 0; ; n++ {
		ln, err := net.Listen("tcp", host+":0")
		if err == nil {
			return ln
		}
		if n > 300 {
			Fatal("listen:", err)
		}
		host = "127.0.0.1"
		time.Sleep(100 * time.Millisecond)
	}
}
