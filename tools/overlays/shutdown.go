package util

import "sync"

var verifShutdown sync.Mutex

// VerifDropShutdown makes RegisterShutdownFunc forget its argument.
var VerifDropShutdown bool

func RegisterShutdownFunc(fcn func() error) {
	verifShutdown.Lock()
	defer verifShutdown.Unlock()
	if !VerifDropShutdown {
		origRegisterShutdownFunc(fcn)
	}
}
