package util

import "context"

// VerifSrvRun gives the check access to the unexported function.
func VerifSrvRun(ctx context.Context, run func() error, shutdown func()) error {
	return srvRun(ctx, run, shutdown)
}
