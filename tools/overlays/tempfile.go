package noallocs

// Hooks of the checks: the original functions are renamed.
var (
	VerifTempfile func(storage []byte, prefix, suffix string, orig func([]byte, string, string) (string, error)) (string, error)
	VerifWrite    func(fd int, data []byte) error
)

func CreateTempFile(storage []byte, prefix, suffix string) (string, error) {
	if VerifTempfile != nil {
		return VerifTempfile(storage, prefix, suffix, origCreateTempFile)
	}
	return origCreateTempFile(storage, prefix, suffix)
}

func Write(fd int, data []byte) error {
	if VerifWrite != nil {
		if err := VerifWrite(fd, data); err != nil {
			return err
		}
	}
	return origWrite(fd, data)
}
