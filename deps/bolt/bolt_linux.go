package bolt

import (
	"syscall"
)

// fdatasync flushes written data to a file descriptor.
func fdatasync(db *DB) error {
	if Trace != nil {
		if err := Trace(db.path, "sync", 0, nil); err != nil {
			return err
		}
	}
	return syscall.Fdatasync(int(db.file.Fd()))
}
