package logrus

import "simrt"

// The formatter calls back into the recorder while the logger's lock is held: no switch may happen in between,
// or another goroutine would block on a lock the simulator does not know about.
func (mw *MutexWrap) Lock() { simrt.NoSwitch(1) }

func (mw *MutexWrap) Unlock() { simrt.NoSwitch(-1) }
